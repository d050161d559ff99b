"""Second attempt at building the monitor, for when a hook no longer fits the code around it (a private function it
passes on to was renamed, say).  Builds against a copy of the tree in which the bodies of exactly those hooks end the
run: every check that never calls them still decides, the others answer that they cannot (exit 2)."""
import json, os, re, shutil, subprocess, sys

target = os.environ["VERIF_TARGET"]
verif = os.environ["VERIF_DIR"]
stub = os.path.join(target, "stub")
MARK = os.path.join(target, "stub-hit")
BODY = '{ let _ = std::fs::write(%s, ""); std::process::exit(97) }' % json.dumps(MARK)


def hook_fns(lines):
    """(first, last) line numbers, from 0, of the functions of hook items."""
    out, i = [], 0
    while i < len(lines):
        if "cfg(algorsand_verif)" not in lines[i]:
            i += 1
            continue
        depth, started, j = 0, False, i
        while j < len(lines):
            depth += lines[j].count("{") - lines[j].count("}")
            started |= "{" in lines[j]
            if (started and depth <= 0) or (not started and lines[j].rstrip().endswith(";")):
                break
            j += 1
        k = i
        while k <= j:
            if re.match(r"\s*pub fn ", lines[k]):
                d, s, e = 0, False, k
                while e <= j:
                    d += lines[e].count("{") - lines[e].count("}")
                    s |= "{" in lines[e]
                    if s and d <= 0:
                        break
                    e += 1
                out.append((k, e))
                k = e
            k += 1
        i = j + 1
    return out


def build():
    p = subprocess.run(
        ["cargo", "build", "--offline", "--locked", "--message-format=json", "--manifest-path", stub + "/harness/Cargo.toml",
         "--target-dir", target], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    spots = set()
    for line in p.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
            continue
        root = os.path.dirname(m["manifest_path"])
        for s in m["message"]["spans"]:
            if s["is_primary"]:
                spots.add((os.path.normpath(os.path.join(root, s["file_name"])), s["line_start"] - 1))
    return p.returncode, spots


def main():
    shutil.rmtree(stub, ignore_errors=True)
    os.makedirs(stub)
    shutil.copytree(verif + "/harness", stub + "/harness")
    p = stub + "/harness/Cargo.toml"
    t = open(p).read()
    repo = re.search(r'algorsand = \{ path = "(.*)" \}', t).group(1)
    shutil.copytree(repo, stub + "/repo", ignore=lambda d, n: [x for x in n if x in (".git", "target")],
                    copy_function=shutil.copy)
    open(p, "w").write(t.replace('path = "%s"' % repo, 'path = "%s/repo"' % stub))
    for _ in range(6):
        rc, spots = build()
        if rc == 0:
            return 0
        changed = False
        for f in {f for f, _ in spots}:
            if not f.startswith(stub + "/repo/"):
                continue
            lines = open(f).read().split("\n")
            for a, b in sorted(hook_fns(lines), reverse=True):
                if any(g == f and a <= n <= b for g, n in spots) and "process::exit(97)" not in "".join(lines[a:b + 1]):
                    text = "\n".join(lines[a:b + 1])
                    cut = text.index("{")
                    print("hook unavailable: %s:%d" % (f[len(stub):], a + 1), file=sys.stderr)
                    lines[a:b + 1] = [text[:cut] + BODY]
                    changed = True
            open(f, "w").write("\n".join(lines))
        if not changed:
            return 1
    return 1


sys.exit(main())
