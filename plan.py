"""What each check simulates: (variant, number of runs, share of the time budget)."""
BUDGET = {"quick": 50.0, "thorough": 760.0}  # seconds for everything, compilation included
SIM = {"quick": 30.0, "thorough": 700.0}     # seconds of simulation the run counts are meant for (8 cores)

# runs per second and core
RATE = {
    "tune": dict(C01=1400, C02=1040, C03=1080, C04=1130, C05=1200, C06=1430, C07=1130, C08=540, C09=1290, C10=900, C11=1450, C12=1050,
                 C13=1850, C14=470, C15=1020, C16=470, C17=260, C18=2200, C19=1200, C20=380),
    "tune386": dict(C01=590, C02=750, C03=780, C04=700, C05=820, C06=710, C07=630, C08=280, C09=580, C10=430, C11=630, C12=960,
                    C13=1250, C14=300, C15=500, C16=300, C17=230, C18=1300, C19=800, C20=280),
    "const": dict(C01=55, C02=61, C03=46, C04=63, C05=50, C06=56, C07=36, C08=13, C09=57, C10=61, C11=61, C12=68, C13=93, C14=39,
                  C15=45, C16=30, C17=24, C18=150, C19=60, C20=28),
    "coarse": dict(C01=110, C02=78, C03=85, C04=91, C07=62, C08=32, C10=38, C11=129, C12=95, C13=117, C14=68, C15=65, C16=8, C18=150),
}
# parts of the simulation time per variant; what has no rate above is not simulated there
PART = {"tune": 0.5, "tune386": 0.1, "const": 0.25, "coarse": 0.15}
SPECIAL = {
    "C16": {"tune": 0.35, "tune386": 0.05, "const": 0.2, "coarse": 0.4},
    "C14": {"tune": 0.75, "tune386": 0.2, "coarse": 0.05},
    "C19": {"tune": 0.7, "tune386": 0.2, "const": 0.1},
    "C17": {"tune": 0.7, "tune386": 0.05, "const": 0.25},
}


def plan(prop, tier):
    parts = {v: x for v, x in SPECIAL.get(prop, PART).items() if prop in RATE[v]}
    total = sum(parts.values())
    out = []
    for v, x in parts.items():
        secs = SIM[tier] * x / total
        out.append((v, max(16, int(RATE[v][prop] * 8 * secs * 0.75)), 1.3 * secs / BUDGET[tier]))
    return out
