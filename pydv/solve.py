import os
import subprocess
import tempfile


def cvc5_unsat(smt2, timeout_ms, binary="cvc5"):
    """second opinion on a query in SMT-LIB 2 (True iff cvc5 answers unsat)"""
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + smt2)
        path = f.name
    try:
        r = subprocess.run(
            [binary, f"--tlimit={timeout_ms}", "--quiet", path],
            capture_output=True, text=True, timeout=timeout_ms / 1000 + 10,
        )
        return r.stdout.strip().splitlines()[:1] == ["unsat"]
    except (subprocess.TimeoutExpired, FileNotFoundError, OSError):
        return False
    finally:
        os.unlink(path)
