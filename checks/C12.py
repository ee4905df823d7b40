"""C12: a system's answers do not depend on when it was asked before."""
import syscheck


def check(c):
    c.model("SysMC", None if c.quick else "SysMC_big.cfg", timeout=850)
    # without the two exclusions the specification itself shows the dependence recorded as findings
    c.model("SysMC", "SysMC_mixed.cfg", expect_ok=False)
    c.model("SysMC", "SysMC_energy.cfg", expect_ok=False)
    for i in range(1 if c.quick else 12):
        syscheck.histories(c, "life", 200 if c.quick else 600, c.seed * 41 + i)
    syscheck.findings(c)
    c.assumptions += ["the derived class supplies exact integers (a mock derived class), so that answers are exact",
                      "answers after a diagonalisation are compared to 1/1000"]
