"""What each check explores: sources of cases per tier, and the aspects of a
trace that are the property's own. ("cat", profile, big, share), ("rnd",
profile, n, depth, damages), ("enum", alphabet, length, share)."""

INVARIANTS = ["TypeOk", "Inv_Locs", "Inv_Stack", "Inv_Dropped", "Inv_Order", "Inv_Slots", "Inv_Abort", "Inv_Same",
              "Inv_Once", "Inv_Faults", "Inv_Accepted"]
ASSUMPTIONS = [
    "leptos 0.7.8 and rustc are trusted; tachys 0.1.9 is patched only to show listeners, properties, directives, "
    "references and namespaces in its server-side output",
    "calls are well delimited token sequences (rustc guarantees that before the macro runs)",
]


OUT = ["rejected", "broken", "accepted", "bad plan"]
DOM = ["tree", "tag", "ns", "text", "event", "domprop", "use", "ref", "prop", "spread", "attr", "class", "style"]


def P(aspects, quick, thorough, **k):
    return dict(aspects=OUT + aspects, quick=quick, thorough=thorough, **k)


def std(prof, aspects, nq=240, nt=3000, depth=3, **k):
    return P(aspects, [("cat", prof, 0, 1), ("rnd", prof, nq, depth, 0)],
             [("cat", prof, 1, 1), ("rnd", prof, nt, depth, 0), ("rnd", prof, nt // 2, depth + 1, 0)], **k)


PLANS = {
    "C01": std("C01", ["tree", "text", "root", "clogn", "rlogn"]),
    "C02": std("C02", ["tag", "ns", "tree", "prop", "text"]),
    "C03": std("C03", ["attr", "class", "style", "ref", "spread"]),
    "C04": std("C04", ["prop", "tag", "clogn"]),
    "C05": std("C05", ["event", "domprop", "use", "class", "style", "ref", "spread", "attr"]),
    "C06": std("C06", ["event", "domprop", "use", "class", "style", "attr", "spread"]),
    "C07": std("C07", ["class", "attr"]),
    "C08": std("C08", ["tree", "text", "prop", "tag", "clogn", "rlogn"]),
    "C09": std("C09", ["tree", "text", "clogn", "rlogn", "tag"]),
    "C10": std("C10", ["clog", "rlog", "clogn", "rlogn"]),
    "C11": P(["unreported"],
             [("cat", "C11", 0, 1), ("cat", "DMG", 0, 8), ("rnd", "C14", 600, 2, 1), ("enum", "E2", 2, 1), ("enum", "E3", 2, 1)],
             [("cat", "C11", 1, 1), ("cat", "DMG", 1, 1), ("rnd", "C14", 6000, 3, 1), ("enum", "E1", 3, 1), ("enum", "E2", 3, 1), ("enum", "E3", 4, 1)]),
    "C12": P(["unreported", "misplaced"],
             [("cat", "C12", 0, 1), ("cat", "DMG", 0, 8), ("rnd", "C14", 600, 2, 1), ("enum", "E1", 2, 1), ("enum", "E2", 2, 1)],
             [("cat", "C12", 1, 1), ("cat", "DMG", 1, 1), ("rnd", "C14", 6000, 3, 1), ("enum", "E1", 3, 1), ("enum", "E2", 3, 1), ("enum", "E3", 3, 1)]),
    "C13": dict(aspects=[], strict=True,
                quick=[("enum", "E1", 3, 3), ("enum", "E2", 3, 3), ("enum", "E3", 3, 1), ("rnd", "C14", 500, 2, 2),
                       ("rnd", "C01", 300, 2, 1), ("cat", "C11", 0, 3), ("cat", "C17", 0, 1), ("cat", "KW", 0, 4), ("cat", "DMG", 0, 16), ("cat", "DEEP", 0, 1)],
                thorough=[("enum", "E1", 4, 8), ("enum", "E2", 4, 4), ("enum", "E3", 4, 1), ("rnd", "C14", 6000, 3, 3),
                          ("rnd", "C01", 4000, 3, 2), ("cat", "C11", 1, 1), ("cat", "C17", 1, 1), ("cat", "C14", 0, 1), ("cat", "KW", 1, 1), ("cat", "DMG", 1, 2), ("cat", "DEEP", 1, 1)]),
    "C14": P(["unreported"],
             [("cat", "C14", 0, 3), ("rnd", "C14", 600, 3, 3)],
             [("cat", "C14", 1, 1), ("rnd", "C14", 6000, 3, 3), ("rnd", "C14", 3000, 3, 5)]),
    "C15": dict(aspects=["unstable"], strict=True, repeat=4,
                quick=[("cat", "C08", 0, 1), ("cat", "C06", 0, 2), ("cat", "C14", 0, 12), ("cat", "C07", 0, 3), ("cat", "C03", 0, 8),
                       ("cat", "C04", 0, 12), ("cat", "C05", 0, 12), ("cat", "C09", 0, 12), ("cat", "C10", 0, 8), ("rnd", "C08", 240, 3, 0),
                       ("rnd", "C05", 160, 3, 0), ("rnd", "C14", 240, 3, 2)],
                thorough=[("cat", p, 1, 2) for p in ("C01", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C14", "C17")]
                + [("rnd", "C08", 1600, 4, 0), ("rnd", "C14", 1600, 3, 2)]),
    "C16": std("C16", ["root", "tree", "text"]),
    "C17": std("C17", ["attr", "class", "style", "prop", "domprop", "tag"]),
    "C19": P(DOM + ["root", "clogn", "rlogn", "clog", "rlog", "unreported", "misplaced"],
             [("cat", "C18", 0, 1), ("cat", "C11", 0, 2), ("cat", "C09", 0, 1), ("cat", "C14", 0, 6), ("cat", "DMG", 0, 60), ("rnd", "C01", 120, 3, 0), ("rnd", "C14", 300, 3, 2)],
             [("cat", p, 0, 1) for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C14", "C16", "C17", "C18")]
             + [("cat", "DMG", 0, 8), ("rnd", "C01", 1500, 3, 0), ("rnd", "C14", 4000, 3, 2)], kit="stable"),
    "C20": P(DOM + ["root", "clogn", "rlogn", "clog", "rlog", "unreported"],
             [("cat", "C20", 0, 1), ("cat", "C08", 0, 6), ("cat", "C11", 0, 12), ("rnd", "C01", 150, 3, 0), ("rnd", "C09", 100, 3, 0)],
             [("cat", "C20", 1, 1)] + [("cat", p, 0, 1) for p in ("C01", "C04", "C05", "C06", "C08", "C09", "C10", "C16", "C18")]
             + [("cat", "C11", 0, 3), ("rnd", "C01", 1500, 3, 0), ("rnd", "C09", 1000, 3, 0), ("rnd", "C14", 600, 2, 1)], envs="others"),
    "C18": std("C18", DOM + ["root", "clogn", "rlogn"]),
}
