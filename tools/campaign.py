"""tools/campaign.py MUTANTS.jsonl OUT.jsonl [WORKERS]: run the repository's tests, then the related checks, on each
mutant, in private mount namespaces over scratch copies (not used by any check)."""
import json, os, queue, shutil, subprocess, sys, threading, time

MAP = {
    "kmcpy/cli/": ["C26", "C17"], "kmcpy/api.py": ["C26"],
    "kmcpy/event/base.py": ["C13", "C01", "C25"], "kmcpy/event/generators.py": ["C12", "C26"],
    "kmcpy/event/hop.py": ["C03", "C08", "C10", "C04", "C25"], "kmcpy/io/cif.py": ["C22"],
    "kmcpy/io/neb/": ["C27", "C20"], "kmcpy/models/base.py": ["C11", "C25", "C26"],
    "kmcpy/models/composite": ["C08", "C11", "C19", "C25"], "kmcpy/models/fitting": ["C20"],
    "kmcpy/models/local_barrier": ["C10", "C11", "C01"], "kmcpy/models/local_cluster": ["C09", "C11", "C27", "C25", "C08", "C20", "C28"],
    "kmcpy/models/parameters": ["C11", "C20", "C25"], "kmcpy/models/site_energy": ["C19", "C11", "C08"],
    "kmcpy/simulator/config": ["C17", "C26", "C25", "C07", "C06"],
    "kmcpy/simulator/kmc": ["C25", "C01", "C03", "C07", "C06", "C26", "C02", "C04", "C16"],
    "kmcpy/simulator/property": ["C07", "C05", "C23", "C17"], "kmcpy/simulator/results": ["C23", "C26"],
    "kmcpy/simulator/state": ["C16", "C03", "C25"], "kmcpy/simulator/tracker": ["C05", "C04", "C07", "C23", "C06"],
    "kmcpy/structure/active": ["C14", "C25", "C15", "C16"], "kmcpy/structure/basis": ["C24", "C09", "C15"],
    "kmcpy/structure/cluster": ["C18", "C09", "C12"], "kmcpy/structure/lattice_s": ["C15", "C14", "C27", "C09"],
    "kmcpy/structure/local_env": ["C21"], "kmcpy/structure/local_lattice": ["C09", "C18", "C27", "C28", "C12", "C25"],
    "kmcpy/structure/local_site": ["C09", "C28", "C12", "C25"], "kmcpy/structure/neighbors": ["C12", "C28", "C09"],
    "kmcpy/structure/sites": ["C22", "C12", "C14"], "kmcpy/structure/species": ["C14", "C15", "C22", "C10"],
    "kmcpy/units": ["C05", "C08"],
}
src, out = sys.argv[1], sys.argv[2]
workers = int(sys.argv[3]) if len(sys.argv) > 3 else 7
todo = [json.loads(l) for l in open(src)]
done = {json.loads(l)["id"] for l in open(out)} if os.path.exists(out) else set()
q = queue.Queue()
for m in todo:
    if m["id"] not in done:
        q.put(m)
lock = threading.Lock()


def sh(folder, command, timeout):
    full = f"mount --bind {folder}/repo /repo && mount --bind {folder}/verif /verif && {command}"
    env = dict(os.environ, LANG="C.UTF-8", MPLBACKEND="Agg", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
               OMP_NUM_THREADS="1", VERIF_SEED="1", VERIF_TIER="quick", TMPDIR=folder + "/tmp")
    os.makedirs(folder + "/tmp", exist_ok=True)
    proc = subprocess.Popen(["unshare", "-m", "--fork", "--pid", "--kill-child", "bash", "-c", full], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                            text=True, start_new_session=True)
    try:
        o, _ = proc.communicate(timeout=timeout)
        rc = proc.returncode
    except subprocess.TimeoutExpired:
        os.killpg(proc.pid, 9)
        o, _ = proc.communicate()
        rc = "timeout"
    shutil.rmtree(folder + "/tmp", ignore_errors=True)
    return rc, o


def work(k):
    folder = f"/tmp/mut/{os.getpid()}w{k}"
    shutil.rmtree(folder, ignore_errors=True)
    os.makedirs(folder)
    subprocess.check_call(["cp", "-a", "/repo", folder + "/repo"])
    subprocess.check_call(["cp", "-a", "/verif", folder + "/verif"])
    while True:
        try:
            m = q.get_nowait()
        except queue.Empty:
            break
        path = f"{folder}/repo/{m['file']}"
        raw = open(path, "rb").read()
        if "edits" in m:
            new = raw
            for a, b in m["edits"]:
                assert new.count(a.encode()) == 1, m["id"]
                new = new.replace(a.encode(), b.encode())
        else:
            new = raw[:m["start"]] + m["new"].encode() + raw[m["end"]:]
        open(path, "wb").write(new)
        t = time.time()
        rc, o = sh(folder, "cd /repo && timeout 400 /opt/venv/bin/python -m pytest -q -x --color=no -p no:cacheprovider "
                           "-p no:warnings tests", 450)
        rec = dict(m, tests=rc, checks={})
        if rc == 0:
            props = m.get("props") or next((v for p, v in MAP.items() if m["file"].startswith(p)), [])
            for p in props:
                rc, o = sh(folder, f"cd /verif && timeout 880 bash run.sh {p} quick", 900)
                rec["checks"][p] = rc
                if rc != 0:
                    rec["report"] = o[-600:]
                    break
        rec["seconds"] = round(time.time() - t)
        open(path, "wb").write(raw)
        with lock, open(out, "a") as fh:
            fh.write(json.dumps(rec) + "\n")
    shutil.rmtree(folder, ignore_errors=True)


ts = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
[t.start() for t in ts]
[t.join() for t in ts]
