"""Checks that need more than harness workers."""
import threading
import derive_check
import interp
import nostd
import programs
from common import build, BuildError


def c19(prop, tier, seed, ev, deadline):
    derive_check.run(prop, tier, seed, ev, deadline)


def program_leg(ev, res, what):
    fail, err = res
    if fail:
        title, src, item = fail
        want = item if item in ("accept", "reject", "layout") else "reject"
        obj = {"kind": "program", "property": ev.prop, "want": want, "source": src, "error": title}
        ev.violation(ev.save_replay(obj), f"{what}: {title}")
    if err:
        ev.inconclusive.append(err)


def prepare(ev, *jobs):
    """Builds side by side; False if one fails."""
    errs = []

    def one(j):
        try:
            j()
        except BuildError as e:
            errs.append(e)

    ts = [threading.Thread(target=one, args=(j,)) for j in jobs]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for e in errs:
        ev.inconclusive.append(str(e)[-1500:])
    return not errs


def c26(prop, tier, seed, ev, deadline):
    nostd.run(prop, tier, seed, ev, deadline)


def c22(prop, tier, seed, ev, deadline):
    thorough = tier == "thorough"
    ev.rules.append("generated component types sent to or shared with another thread: rejected by the compiler exactly when the type is not Send or not Sync; each is non-trivial")
    program_leg(ev, programs.run_components(seed, 1500 if thorough else 150, ev), "a program the compiler must reject is accepted")
    if ev.violations or ev.inconclusive:
        return
    if not prepare(ev, interp.build_miri):
        return
    rounds = 20 if thorough else 1
    for k in range(rounds):
        # every process schedules its threads differently
        ok = interp.leg("miri", "C22m", 400 if thorough else 72, seed * 100 + k, 180 if thorough else 26, ev,
                        flags=lambda i: f"-Zmiri-seed={seed * 1000 + k * 8 + i}", tier=tier)
        if not ok:
            return


def c23(prop, tier, seed, ev, deadline):
    thorough = tier == "thorough"
    ev.rules.append("generated borrow-misuse programs, each with a twin that only differs in the order of statements: the compiler must reject the one and accept the other; each is non-trivial")
    program_leg(ev, programs.run_borrows(seed, 6000 if thorough else 800, ev), "a program that uses a borrow after a conflicting call compiles")
    if ev.violations or ev.inconclusive:
        return
    ev.rules.append("generated programs storing components at and beyond the documented limits of size and alignment: beyond them they are rejected or work, and never corrupt memory; non-trivial: beyond a limit")
    program_leg(ev, programs.run_layouts(seed, 600 if thorough else 60, ev), "oversized components")
    if ev.violations or ev.inconclusive:
        return
    if not prepare(ev, interp.build_miri, lambda: build(["asan"])):
        return
    rounds = 20 if thorough else 1
    f = 6 if thorough else 1
    for k in range(rounds):
        s = seed * 100 + k
        for suite, n in (("C01", 400), ("C09", 300), ("C12", 500), ("C13", 1500), ("C14", 2000), ("C16", 1500)):
            if not interp.leg("asan", suite, n, s, 40 * f, ev, shrink_s=60):
                return
        if not interp.leg("miri", "C12m", 120 * f, s, 22 * f, ev):
            return
        if not interp.leg("miri", "C23", 120 * f, s, 34 * f, ev):
            return


def replay_program(r):
    rc, text = programs.replay_source(r["source"], r["want"])
    print(("PASS" if rc == 0 else "FAIL") + f" {r['error']}: {text}")
    return rc


def replay(r):
    return {"derive": derive_check.replay, "interp": interp.replay, "program": replay_program, "nostd": nostd.replay}[r["kind"]](r)
