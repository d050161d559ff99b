//! Defaults of a node's configuration: name, type, value.

pub const DEFAULTS: &[(&str, &str, &str)] = &[
    ("account_updates_stats_interval", "Duration", r#"{"secs": 5, "nanos": 0}"#),
    ("accounts_rebuild_synchronous_mode", "i32", r#"1"#),
    ("announce_participation_key", "bool", r#"true"#),
    ("archival", "bool", r#"false"#),
    ("base_logger_debug_level", "u32", r#"4"#),
    ("block_service_custom_fallback_endpoints", "String", r#""""#),
    ("broadcast_connections_limit", "i32", r#"-1"#),
    ("cadaver_size_target", "u64", r#"1073741824"#),
    ("catchpoint_file_history_length", "i32", r#"365"#),
    ("catchpoint_interval", "u64", r#"10000"#),
    ("catchpoint_tracking", "i64", r#"0"#),
    ("catchup_block_download_retry_attempts", "i32", r#"1000"#),
    ("catchup_block_validate_mode", "u32", r#"0"#),
    ("catchup_failure_peer_refresh_rate", "i32", r#"10"#),
    ("catchup_gossip_block_fetch_timeout_sec", "i32", r#"4"#),
    ("catchup_http_block_fetch_timeout_sec", "i32", r#"4"#),
    ("catchup_ledger_download_retry_attempts", "i32", r#"50"#),
    ("catchup_parallel_blocks", "u64", r#"16"#),
    ("connections_rate_limiting_count", "u32", r#"60"#),
    ("connections_rate_limiting_window_seconds", "u32", r#"1"#),
    ("deadlock_detection", "i32", r#"0"#),
    ("disable_localhost_connection_rate_limit", "bool", r#"true"#),
    ("disable_networking", "bool", r#"false"#),
    ("disable_outgoing_connection_throttling", "bool", r#"false"#),
    ("dns_bootstrap_id", "String", r#""<network>.algorand.network""#),
    ("dns_security_flags", "u32", r#"1"#),
    ("enable_account_updates_stats", "bool", r#"false"#),
    ("enable_agreement_reporting", "bool", r#"false"#),
    ("enable_agreement_time_metrics", "bool", r#"false"#),
    ("enable_assemble_stats", "bool", r#"false"#),
    ("enable_block_service", "bool", r#"false"#),
    ("enable_block_service_fallback_to_archiver", "bool", r#"true"#),
    ("enable_catchup_from_archive_servers", "bool", r#"false"#),
    ("enable_developer_api", "bool", r#"false"#),
    ("enable_gossip_block_service", "bool", r#"true"#),
    ("enable_incoming_message_filter", "bool", r#"false"#),
    ("enable_ledger_service", "bool", r#"false"#),
    ("enable_metric_reporting", "bool", r#"false"#),
    ("enable_outgoing_network_message_filtering", "bool", r#"true"#),
    ("enable_ping_handler", "bool", r#"true"#),
    ("enable_process_block_stats", "bool", r#"false"#),
    ("enable_profiler", "bool", r#"false"#),
    ("enable_request_logger", "bool", r#"false"#),
    ("enable_top_accounts_reporting", "bool", r#"false"#),
    ("endpoint_address", "String", r#""127.0.0.1:0""#),
    ("fallback_dns_resolver_address", "String", r#""""#),
    ("force_relay_messages", "bool", r#"false"#),
    ("gossip_fanout", "u32", r#"4"#),
    ("incoming_connections_limit", "i32", r#"10000"#),
    ("incoming_message_filter_bucket_count", "i32", r#"5"#),
    ("incoming_message_filter_bucket_size", "i32", r#"512"#),
    ("is_indexer_active", "bool", r#"false"#),
    ("ledger_synchronous_mode", "i32", r#"2"#),
    ("log_archive_max_age", "String", r#""""#),
    ("log_archive_name", "String", r#""node.archive.log""#),
    ("log_size_limit", "u64", r#"1073741824"#),
    ("max_catchpoint_download_duration", "Duration", r#"{"secs": 7200, "nanos": 0}"#),
    ("max_connections_per_ip", "i32", r#"30"#),
    ("min_catchpoint_file_download_bytes_per_second", "u64", r#"20480"#),
    ("net_address", "String", r#""""#),
    ("network_message_trace_server", "String", r#""""#),
    ("network_protocol_version", "String", r#""""#),
    ("node_exporter_listen_address", "String", r#"":9100""#),
    ("node_exporter_path", "String", r#""./node_exporter""#),
    ("optimize_accounts_database_on_startup", "bool", r#"false"#),
    ("outgoing_message_filter_bucket_count", "i32", r#"3"#),
    ("outgoing_message_filter_bucket_size", "i32", r#"128"#),
    ("participation_keys_refresh_interval", "Duration", r#"{"secs": 60, "nanos": 0}"#),
    ("peer_connections_update_interval", "i32", r#"3600"#),
    ("peer_ping_period_seconds", "i32", r#"0"#),
    ("priority_peers", "HashMap<String, bool>", r#"{}"#),
    ("public_address", "String", r#""""#),
    ("reconnect_time", "Duration", r#"{"secs": 60, "nanos": 0}"#),
    ("reserved_fds", "u64", r#"256"#),
    ("rest_read_timeout_seconds", "i32", r#"15"#),
    ("rest_write_timeout_seconds", "i32", r#"120"#),
    ("run_hosted", "bool", r#"false"#),
    ("suggested_fee_block_history", "i32", r#"3"#),
    ("suggested_fee_sliding_window_size", "u32", r#"50"#),
    ("telemetry_to_log", "bool", r#"true"#),
    ("tls_cert_file", "String", r#""""#),
    ("tls_key_file", "String", r#""""#),
    ("tx_pool_exponential_increase_factor", "u64", r#"2"#),
    ("tx_pool_size", "i32", r#"15000"#),
    ("tx_sync_interval_seconds", "i64", r#"60"#),
    ("tx_sync_serve_response_size", "i32", r#"1000000"#),
    ("tx_sync_timeout_seconds", "i64", r#"30"#),
    ("use_xforwarded_for_address_field", "String", r#""""#),
    ("verified_transcations_cache_size", "i32", r#"30000"#),
    ("version", "u32", r#"0"#),
];
