#!/usr/bin/env python3
"""mutate.py [--workers N] [--runs N] [--only REGEX] [--list]: small changes of /repo's code, one at a time, in scratch
copies under /tmp/mut; reports the ones that build and that no world notices. A way to find blind spots; the
survivors have to be read: many change no behaviour."""
import argparse, concurrent.futures as cf, json, os, queue, re, shutil, subprocess, sys, hashlib

ap = argparse.ArgumentParser()
ap.add_argument("--workers", type=int, default=4)
ap.add_argument("--runs", type=int, default=6000)
ap.add_argument("--wall", type=int, default=60)
ap.add_argument("--only", default=".")
ap.add_argument("--list", action="store_true")
ap.add_argument("--out", default="/tmp/mut/results.jsonl")
A = ap.parse_args()
FILES = """protosocket-connection/src/connection.rs protosocket-connection/src/lib.rs protosocket-connection/src/types.rs
protosocket-messagepack/src/lib.rs protosocket-prost/src/prost_client_registry.rs protosocket-prost/src/prost_serializer.rs
protosocket-rpc/src/client/configuration.rs protosocket-rpc/src/client/reactor/completion_reactor.rs
protosocket-rpc/src/client/reactor/completion_registry.rs protosocket-rpc/src/client/reactor/completion_streaming.rs
protosocket-rpc/src/client/reactor/completion_unary.rs protosocket-rpc/src/client/rpc_client.rs protosocket-rpc/src/message.rs
protosocket-rpc/src/server/abortable.rs protosocket-rpc/src/server/connection_server.rs protosocket-rpc/src/server/rpc_submitter.rs
protosocket-rpc/src/server/socket_server.rs protosocket-server/src/connection_server.rs""".split()

SUBST = [
    (r" < ", " <= "), (r" <= ", " < "), (r" == ", " != "), (r" != ", " == "), (r" \+= ", " -= "), (r" \+ ", " - "),
    (r" - ", " + "), (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"), (r"\bcontinue;", "return None;"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b2\b", "3"), (r"\b3\b", "0"),
    (r"if let Err\(_?e\) = (.*?) \{", r"if let (Err(_e), false) = (\1, true) {"),
    (r"if (?!let)(.*) \{$", r"if (\1) && false {"), (r"if (?!let)(.*) \{$", r"if (\1) || true {"),
    (r"WaitingForMore", "PartiallyConsumed"), (r"PartiallyConsumed", "WaitingForMore"), (r"Disconnected;", "WaitingForMore;"),
    (r"Poll::Pending$", "Poll::Ready(())"), (r"return Some\(Poll::Ready\(\(\)\)\);", "break;"),
    (r"return Some\(early_out\);", ""), (r"\.pop_front\(\)", ".pop_back()"), (r"push_back", "push_front"), (r"push_front", "push_back"),
    (r"\.reverse\(\);", ".len();"), (r"mark_aborted", "abort"), (r"\.abort\(\)", ".mark_aborted()"),
    (r"\.is_empty\(\)", ".len() == 1"), (r"!self", "self"), (r"MAXIMUM_LENGTH_DELIMITER <=", "MAXIMUM_LENGTH_DELIMITER <"),
    (r"saturating_add", "wrapping_add"), (r"Normal", "Cancel"), (r"Cancel\b", "End"), (r"\bEnd\b", "Cancel"), (r"Continue", "Disconnect"),
    (r"Disconnect\b", "Continue"), (r"unwrap_or_default\(\)", "expect(\"x\")"), (r"LIMIT: usize = 16", "LIMIT: usize = 1"),
    (r"UIO_MAXIOV: usize = 128", "UIO_MAXIOV: usize = 1"), (r"BUFFER_INCREMENT: usize = 2 << 20", "BUFFER_INCREMENT: usize = 64"),
    (r"MESSAGES_PER_POLL: usize = 128", "MESSAGES_PER_POLL: usize = 1"), (r"Error::Finished", "Error::CancelledRemotely"),
    (r"Error::CancelledRemotely", "Error::Finished"), (r"Error::ConnectionIsClosed", "Error::CancelledRemotely"),
    (r"self\.max_queued_outbound_messages", "128"), (r"self\.max_buffer_length", "(4 << 20)"), (r"self\.max_queued_send_messages", "64"),
]

def mutants():
    out = []
    for f in FILES:
        src = open("/repo/" + f).read()
        cut = src.find("#[cfg(test)]")
        body = src if cut < 0 else src[:cut]
        lines = body.split("\n")
        depth_skip = False
        for i, l in enumerate(lines):
            t = l.strip()
            if not t or t.startswith(("//", "#", "use ", "log::", "pub use", "mod ", "pub mod", "impl", "where", "\"", "///")):
                continue
            if re.search(r"log::\w+!", t):
                continue
            for a, b in SUBST:
                for m in re.finditer(a, l):
                    n = l[:m.start()] + m.expand(b) + l[m.end():]
                    if n != l:
                        out.append((f, i, l, n))
                    break
            if t.endswith(";") and not t.startswith(("let ", "type ", "const ", "return", "break", "continue", "pub ", "fn ", "}", ")")) and re.match(r"^[\w*].*\);$|^[\w.*\[\]]+ [-+]?= .*;$", t) and t.count("(") == t.count(")"):
                out.append((f, i, l, re.match(r"\s*", l).group(0) + ";"))
    seen, uniq = set(), []
    for m in out:
        if (m[0], m[1], m[3]) not in seen:
            seen.add((m[0], m[1], m[3])); uniq.append(m)
    return uniq

def setup(k):
    d = f"/tmp/mut/w{k}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.check_call(["cp", "-a", "/verif/sim", d + "/sim"])
    subprocess.check_call(["git", "clone", "-q", "/repo", d + "/repo"])
    p = d + "/sim/Cargo.toml"
    s = open(p).read().replace("/repo/", d + "/repo/")
    open(p, "w").write(s)
    return d

def run(d, m):
    f, i, old, new = m
    p = f"{d}/repo/{f}"
    src = open(p).read()
    lines = src.split("\n")
    assert lines[i] == old
    lines[i] = new
    open(p, "w").write("\n".join(lines))
    r = {"file": f, "line": i + 1, "old": old.strip(), "new": new.strip()}
    try:
        b = subprocess.run(["cargo", "build", "--offline", "--release"], cwd=d + "/sim", capture_output=True, text=True, timeout=300,
                           env=dict(os.environ, CARGO_BUILD_JOBS=str(max(1, 8 // A.workers))))
        if b.returncode:
            r["result"] = "no build"
            return r
        env = dict(os.environ, THREADS=str(max(2, 8 // A.workers)))
        try:
            s = subprocess.run([d + "/sim/target/release/psim", "sweep", str(A.runs), "1", str(A.wall)], capture_output=True, text=True, timeout=A.wall + 60, env=env)
            r["result"] = "caught" if s.returncode == 1 else "exit %d" % s.returncode if s.returncode else "SURVIVED"
            r["how"] = (s.stdout.strip().split("\n") or [""])[-1][:400]
            if s.returncode not in (0, 1):
                r["err"] = s.stderr[-400:]
        except subprocess.TimeoutExpired:
            r["result"] = "timeout"
    finally:
        open(p, "w").write(src)
    return r

def main():
    ms = [m for m in mutants() if re.search(A.only, m[0] + ":" + str(m[1] + 1))]
    if A.list:
        for m in ms:
            print(f"{m[0]}:{m[1]+1}: {m[2].strip()}  =>  {m[3].strip()}")
        print(len(ms)); return
    os.makedirs("/tmp/mut", exist_ok=True)
    done = set()
    if os.path.exists(A.out):
        for l in open(A.out):
            x = json.loads(l); done.add((x["file"], x["line"], x["new"]))
    ms = [m for m in ms if (m[0], m[1] + 1, m[3].strip()) not in done]
    q = queue.Queue()
    for k in range(A.workers):
        q.put(setup(k))
    out = open(A.out, "a")
    def job(m):
        d = q.get()
        try:
            return run(d, m)
        finally:
            q.put(d)
    with cf.ThreadPoolExecutor(A.workers) as ex:
        for r in ex.map(job, ms):
            out.write(json.dumps(r) + "\n"); out.flush()
            if r["result"] not in ("no build", "caught"):
                print(r["result"], f'{r["file"]}:{r["line"]}: {r["old"]}  =>  {r["new"]}', r.get("how", ""), flush=True)
    for k in range(A.workers):
        shutil.rmtree(f"/tmp/mut/w{k}", ignore_errors=True)
main()
