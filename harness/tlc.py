"""Run TLC on a specification of /verif/spec and collect what it reports."""
import json
import os
import re
import shutil
import subprocess
import tempfile
from dataclasses import dataclass, field

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
JARS = ":".join(
    "/opt/veriftools/tla/" + j for j in ("tla2tools.jar", "CommunityModules-deps.jar")
)


class MachineryError(Exception):
    """The checking machinery itself failed (never a verdict about the code)."""


@dataclass
class TlcResult:
    out: str
    rows: list = field(default_factory=list)
    generated: int = 0
    distinct: int = 0
    depth: int = 0
    violated: str = ""
    coverage: dict = field(default_factory=dict)


def _constants(cfg, constants):
    """Replace the value of constants given in a cfg file"""
    for name, value in constants.items():
        new, n = re.subn(
            rf"(?m)^(\s*(?:CONSTANTS?\s+)?){name}\s*(=|<-).*$",
            lambda m: f"{m.group(1)}{name} = {value}", cfg)
        if n != 1:
            raise MachineryError(f"constant {name} not found in cfg")
        cfg = new
    return cfg


def run(module, cfg=None, constants=None, env=None, data=None, workers=1,
        simulate=None, depth=None, seed=None, timeout=600, heap="6g",
        allow_violation=False, coverage=False):
    """
    Run TLC on `spec/<module>.tla` with `spec/<cfg>.cfg`

    `data` is written to a JSON file whose path the specification reads from the
    environment variable DATA.  Every line printed by the specification with
    `PrintT("@" \\o ToJson(x))` is returned, decoded, in `rows`.
    """
    cfg_text = open(os.path.join(SPEC, f"{cfg or module}.cfg")).read()
    cfg_text = _constants(cfg_text, constants or {})
    tmp = tempfile.mkdtemp(prefix="tlc-")
    try:
        cfg_path = os.path.join(tmp, "m.cfg")
        with open(cfg_path, "w") as f:
            f.write(cfg_text)
        full_env = dict(os.environ)
        full_env.pop("JAVA_TOOL_OPTIONS", None)
        full_env.update({k: str(v) for k, v in (env or {}).items()})
        if data is not None:
            data_path = os.path.join(tmp, "data.json")
            with open(data_path, "w") as f:
                json.dump(data, f)
            full_env["DATA"] = data_path
        cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC",
               f"-Djava.io.tmpdir={tmp}", "-cp", JARS, "tlc2.TLC",
               "-metadir", os.path.join(tmp, "states"), "-noGenerateSpecTE",
               "-config", cfg_path, "-workers", str(workers), "-lncheck", "final"]
        if coverage:
            cmd += ["-coverage", "1"]
        if simulate is not None:
            cmd += ["-simulate", f"num={simulate}"]
        if depth is not None:
            cmd += ["-depth", str(depth)]
        if seed is not None:
            cmd += ["-seed", str(seed)]
        cmd.append(os.path.join(SPEC, f"{module}.tla"))
        try:
            proc = subprocess.run(cmd, cwd=tmp, env=full_env, capture_output=True,
                                  text=True, timeout=timeout)
        except subprocess.TimeoutExpired as exc:
            raise MachineryError(f"TLC timed out on {module}") from exc
        out = proc.stdout
        res = TlcResult(out)
        # workers print in any order
        lines = [l for l in out.splitlines() if l.startswith('"@')]
        for line in (sorted(lines) if workers > 1 else lines):
            res.rows.append(json.loads(json.loads(line)[1:]))
        m = re.findall(r"([\d,]+) states generated[^,]*?, ([\d,]+) distinct states found", out)
        if m:
            res.generated = int(m[-1][0].replace(",", ""))
            res.distinct = int(m[-1][1].replace(",", ""))
        m = re.search(r"The number of states generated: ([\d,]+)", out)
        if m and not res.generated:
            res.generated = int(m.group(1).replace(",", ""))
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        if m:
            res.depth = int(m.group(1))
        for m in re.finditer(r"(?m)^<(\w+) line [^>]*>: (\d+):(\d+)", out):
            res.coverage[m.group(1)] = int(m.group(3))
        m = re.search(r"(Invariant \S+ is violated|Action property .* is violated"
                      r"|Temporal properties were violated|Deadlock reached"
                      r"|Property \S+ is violated|The postcondition .* is violated"
                      r"|Assumption .* is false)", out)
        if m:
            res.violated = m.group(1)
        if res.violated and allow_violation:
            return res
        if proc.returncode != 0 or res.violated or "Error:" in out:
            keep = "\n".join(
                l for l in out.splitlines() if not l.startswith('"@'))[-4000:]
            raise MachineryError(f"TLC failed on {module}: {keep}\n{proc.stderr[-500:]}")
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
