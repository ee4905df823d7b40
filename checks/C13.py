"""C13: editing a system keeps states, vectors and matrices aligned."""
import syscheck


def check(c):
    c.model("SysMC", None if c.quick else "SysMC_big.cfg", timeout=850)
    for i in range(1 if c.quick else 12):
        syscheck.histories(c, "edit", 220 if c.quick else 600, c.seed * 43 + i)
        syscheck.histories(c, "life", 160 if c.quick else 400, c.seed * 47 + i)  # more questions between the edits
    c.assumptions += ["the derived class supplies exact integers (a mock derived class), so that answers are exact",
                      "answers after a diagonalisation are compared to 1/1000"]
