"""What each property's check consists of."""
import runner
import csys
import sections
import shells
import spectra
import dynamics
from histories import histories
from gen import attempts
from profiles import PROFILES


def traces(module, fexec, gens, cap=400):
    """A part: plans of the generators, executed and validated; the thorough tier repeats until its share of the time is used."""
    def part(R, rng):
        while True:
            plans, tags = [], []
            for f, q, t in gens:
                n = q if R.tier == "quick" else min(t, 2 * q)
                for _ in range(n):
                    plans.append(attempts(rng, f))
            R.traces_of(module, fexec, plans, "+".join(f.__name__ for f, _, _ in gens))
            if R.tier == "quick" or R.violations or R.left() < 60:
                return
            if all(t <= q for _, q, t in gens):
                return
    return part


def model(module, env=None, cfg=None, thorough=None, **kw):
    """A part: exhaustive model checking of the specification itself."""
    def part(R, rng):
        e = dict(env or {})
        if R.tier == "thorough":
            e.update(thorough or {})
        R.model(module, cfg or module + ".cfg", env=e, **kw)
    return part


PARTS = {p: [traces("ApiTrace", runner.run_plan, g)] for p, g in PROFILES.items()}

for _p, _parts in {
    "C01": [histories("registry", "direct", 900), histories("registry", "api", 500), histories("beams", "direct", 700), histories("shells", "api", 400)],
    "C02": [histories("beams", "api", 900), histories("shells", "api", 400), histories("life", "api", 300)],
    "C03": [histories("loads", "direct", 1400), histories("loads", "api", 700)],
    "C05": [histories("restraints", "api", 1200), histories("restraints", "direct", 500)],
    "C10": [histories("life", "api", 1500), histories("life", "direct", 500)],
    "C11": [histories("files", "api", 1500)],
}.items():
    PARTS[_p] += _parts

for _p in ("C04", "C06", "C07", "C08", "C12", "C13"):
    PARTS[_p].insert(0, model("MCFrame", {"LMAX": "3"}, workers=4))

PARTS["C06"].append(traces("CsysTrace", csys.run_members, [(csys.members, 800, 10 ** 9)]))
PARTS["C14"] = [traces("ApiTrace", runner.run_plan, [(dynamics.c14_plan, 360, 10 ** 9), (dynamics.c14_many, 24, 10 ** 9)])]
PARTS["C15"] = [traces("ApiTrace", runner.run_plan, [(dynamics.c15_plan, 260, 10 ** 9), (dynamics.c15_long, 40, 10 ** 9)])]
PARTS["C16"] = [traces("CsysTrace", csys.run_csys, [(csys.turned, 1500, 10 ** 9)]), csys.orientations(2500)]
PARTS["C17"] = [model("MCSection", {"DMAX": "7"}, thorough={"DMAX": "9"}), traces("SecTrace", sections.run_sections, [(sections.catalogue, 1500, 10 ** 9)])]
PARTS["C18"] = [model("MCShell", {"NMAX": "2"}, thorough={"NMAX": "3"}),
                traces("ShellTrace", shells.run_shells, [(shells.single, 250, 10 ** 9), (shells.mesh, 120, 10 ** 9), (shells.patch, 120, 10 ** 9)])]
PARTS["C19"] = [model("MCShell", {"NMAX": "2"}, thorough={"NMAX": "3"}),
                traces("ShellTrace", shells.run_shells, [(shells.single3, 250, 10 ** 9), (shells.mesh3, 100, 10 ** 9), (shells.patch3, 100, 10 ** 9)])]
PARTS["C22"] = [model("MCSpectrum", {"STEP": "50"}, thorough={"STEP": "5"}), traces("SpectrumTrace", spectra.run_spectra, [(spectra.tables, 1200, 10 ** 9)])]
