"""The second solver: every "unsat" answer of z3 that an obligation rests on is put to cvc5 as well.

The queries of a unit of work are collected while it is decided and go to one cvc5 process at its end.  An answer "sat"
of cvc5 leaves every obligation of the unit undischarged; no answer in time is counted, and reported in the evidence."""
import re
import shutil
import subprocess
import time

PENDING = []
COUNT = {"unsat_answers": 0, "confirmed": 0, "no_answer": 0, "contradicted": 0}
_token = re.compile(r'"(?:[^"]|"")*"|\|(?:[^|\\]|\\.)*\|', re.S)
spare = 40.0            # seconds of this process for queries that take cvc5 more than the usual time
CVC5 = shutil.which("cvc5")


def record(solver):
    COUNT["unsat_answers"] += 1
    if CVC5:
        PENDING.append(solver.to_smt2())
    else:
        COUNT["no_answer"] += 1


def standard(text):
    """z3's output in the language of the standard: no '|' and no backslash in a quoted symbol."""
    names = {}

    def symbol(m):
        t = m.group(0)
        if t[0] == '"' or "\\" not in t:
            return t
        if t not in names:
            names[t] = "|%s!q%d|" % (re.sub(r"[|\\]", "", t), len(names))
        return names[t]
    return _token.sub(symbol, text)


def flush(limit_ms=1000, batch=100):
    """Put what was collected to cvc5; the number of contradictions."""
    global spare
    bad = 0
    while PENDING:
        if spare < 0:
            COUNT["no_answer"] += len(PENDING)
            del PENDING[:]
            break
        t0 = time.monotonic()
        part = PENDING[:batch]
        del PENDING[:batch]
        text = "".join("(reset)\n(set-logic ALL)\n%s\n(echo \"end\")\n" % standard(t) for t in part)
        try:
            r = subprocess.run([CVC5, "--lang=smt2", "--strings-exp", "--tlimit-per=%d" % limit_ms, "-q", "-"], input=text, capture_output=True,
                               text=True, timeout=60, encoding="utf-8", errors="replace")
            answers = r.stdout.split('"end"\n')[:-1]
        except (OSError, subprocess.TimeoutExpired):
            answers = []
        took = time.monotonic() - t0
        spare -= max(0, took - 0.05 * len(part))
        for a in answers:
            a = a.strip().split("\n")[-1]
            if a == "unsat":
                COUNT["confirmed"] += 1
            elif a == "sat":
                COUNT["contradicted"] += 1
                bad += 1
            else:
                COUNT["no_answer"] += 1
        if len(answers) < len(part):            # cvc5 stopped at this one
            COUNT["no_answer"] += 1
            PENDING[:0] = part[len(answers) + 1:]
    return bad
