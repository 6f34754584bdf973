"""DESIGN.md, from the properties, the checks' own descriptions, the text below, the findings and the seeded bugs."""
import ast
import glob
import json
import os
import subprocess

V = "/verif"
WHY = {   # why this reaches what unit tests cannot; limits
 "C01": "A unit test lists constructs; the generator composes every node of the grammar with every other in every position, where precedence, parentheses, string prefixes and nesting rules interact (26 defects repaired).",
 "C02": "Relations between renderings need no expected text, so any tree can be used, also damaged ones and ones with markers.",
 "C03": "CPython's own compiler is the oracle for every module that uses no macros: code objects, positions, warnings, errors. Limits: text matching `from x import dialects, Y` at the first column counts as using dialects, even in a docstring (documented); warnings are compared as sets.",
 "C04": "The reference expander is independent and tiny; the log of monitor macros shows each call with its input, arguments, as-part and whole invocation. Order is compared between top-level statements and along nesting, not between siblings.",
 "C05": "Macros may return anything; what reaches Python's compiler is checked node by node for every mangling and position.",
 "C06": "Line events and frame line numbers of the running code, not only attributes of nodes. Limit: an invocation expanding to a bare constant leaves no code to cover.",
 "C07": "A reference predicts which macro fails, with which cause and use-site stack; afterwards the expander's global state must equal a snapshot and probe programs must still work.",
 "C08": "Oracle: CPython's parse of the quoted code, for code that could not even run. Kind `u` of strings, positions and f-string piece boundaries are not compared.",
 "C09": "The generator builds program and expected tree side by side, so nesting depth, levels and splice positions are unbounded. Limits: only lists (not tuples) splice in `with a`; `None` in lists for statements is dropped, by design.",
 "C10": "Exact type-and-bit comparison of values to depth 5.",
 "C11": "Each capture carries a description of the object made at its definition site and is checked whenever it runs, also in fresh processes from bytecode, also racing. Limits: back-dated edits older than mcpyrate itself are not seen.",
 "C12": "Every observable value carries the version of every macro and dialect that took part; the oracle is an import without any caches. Limits: dialect-injected macro-imports must also be macro-imported by the dialect module; macro-imports in sources that do not parse before a dialect's source transform are not tracked when indented or multi-line; macros in zip files are never cached; staleness has a resolution of one second.",
 "C13": "Fault injection between and during imports. Limits: damage of bytecode that CPython itself would not detect, and forged complete dependency caches, are excluded; the first import without `__pycache__` directory writes no dependency cache.",
 "C14": "Oracle: the chain of single-phase modules the documentation says a multi-phase module stands for.",
 "C15": "All of sys.modules and the parents' attributes, by identity, after each operation and from inside running phases. create_module overwrites an existing entry and temporary_module simply removes it (documented); when run(None) fails the new module may or may not stay.",
 "C16": "Differential between a real import and each run-time form; parts common to both are pinned by absolute oracles (`__debug__`, docstrings).",
 "C17": "Model of the documented dialect-import algorithm vs. the dialects' own log.",
 "C18": "Identity of every node of the template is checked against a snapshot, so aliasing cannot hide.",
 "C19": "Scripted walkers in lockstep with a reference model.",
 "C20": "Works on tokens, so it cannot share a blind spot with the AST-based implementation. A dotted module path counts as one name.",
 "C21": "Python's import system on a twin tree is the oracle. Limits: one macro name bound by several macro-imports is unspecified; modules unknown to sys.modules (runpy) guess their package.",
 "C22": "Python's own console fed with hand-expanded inputs is the oracle. Limits: no dialects or multi-phase code in a REPL; unloading the IPython extension is not supported.",
 "C23": "The same program under plain `python`. Limits: `__spec__` of scripts, search path entries after the first, zip files and frozen modules are excluded.",
 "C24": "An audit hook sees each deletion, so nothing outside of what the model allows can go unnoticed; entries vanish amid the run. Limits: readable and writable trees only.",
 "C25": "Delays injected at function entries put thread switches into the middle of quotes, phases and imports. Limits: reloads concurrent with imports and several REPL consoles in threads are excluded; import statements of multi-phase modules are a known finding.",
 "C26": "Each report printed is compared with what an instrumented reference says must be reported then. Limits: macros around a stepped invocation must not look at its code; `SourceLocationInfoValidator` also reports nodes that have no positions by nature (only the others are judged).",
 "C27": "Reference expander, plus the same code expanded as a module. Limits: the static (s) forms do not expand hygienic captures (by design).",
 "C28": "Lockstep with a dict.",
 "C29": "Small reference models, adversarial uuid sources, exceptional exits.",
 "C30": "An exact model of which bytecode file is valid in which mode, and what it contains, over whole histories; switches happen inside module bodies and macros. Limits: bytecode of macro-using modules compiled while deactivated is up to date for Python, so it is removed before reactivating (documented advice); hooks installed on top of mcpyrate's own are not covered.",
}
INTRO = """# Runtime monitoring of mcpyrate

Everything here runs the real code of /repo (pure Python; nothing to build) under generated workloads and decides with oracles that observe the executions. No hooks
in /repo are needed: monitor macros, recording dialects, injected builtins, audit/trace hooks and process boundaries observe from outside, so refactorings do not matter to them.

## Machinery

* `check.py <ID> [--quick|--thorough] [--seed N] [--replay F] [--shards N]` runs one check (environment: VERIF_SEED, VERIF_TIER; VERIF_REPO for another tree).
  `lib/fw.py` forks 8 shards; each evaluates the fixed cases (corner cases and enumerations) and then seeded random ones. A case is JSON data, so each violation is
  written to `replays/<ID>/` and can be replayed. Violations are grouped by mechanism and reduced to the smallest case seen.
* Verdicts: exit 1 violated (with VIOLATION lines), 0 held on what was observed, 2 inconclusive: a shard died, or the monitors saw less than the minimum of events (MIN;
  enforced at 1/8 of the usual counts, so that a slow machine gives the same answer).
* Evidence (`evidence/<ID>.json`): number of evaluations, distinct non-trivial cases, and per monitor the number of events and of distinct states or interleavings seen.
* `lib/pygen.py`: generator of Python 3.12 source over the whole grammar. `lib/mackit.py`: 21 monitor macros, random injection of macro invocations, and the reference
  expander written from the documentation. `lib/asteq.py`: structural comparison. `lib/codecmp.py`: code object comparison. `lib/proj.py`: projects on disk, edit
  histories and importing processes.
* `KNOWN_FINDINGS.txt`: defects recorded or repaired. `tools/`: generators of properties.jsonl, MANIFEST.json, this file, and of `seeded/` from `tools/bugs/*.py`.

Compiler sanitizers and race detectors do not apply to pure Python code; their part is played by monitors (audit hooks, trace functions, schedule noise). All 30
properties are decided by runtime monitoring; none is listed as not applicable.

Cost: a quick check takes 12-50 s, a thorough one 5-10 min (on 8 cores).

## Properties
"""


def const(path, names):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in names:
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                out[n.targets[0].id] = {k.arg: ast.literal_eval(k.value) for k in n.value.keywords}
    return out


def main():
    o = [INTRO]
    props = [json.loads(ln) for ln in open(f"{V}/properties.jsonl")]
    for p in props:
        i = p["id"]
        c = const(f"{V}/checks/{i.lower()}.py", ("TECHNIQUE", "LEVEL_NOTE", "RULE", "QUICK", "THOROUGH", "MIN", "ASSUMPTIONS"))
        o.append(f"### {i} {p['title']}\n")
        o.append(f"*Decided by*: {c['TECHNIQUE']}.\n")
        o.append(f"*Workload*: {c['RULE']} {c['LEVEL_NOTE']}\n")
        o.append(f"*Bounds*: quick {c['QUICK']['n']} cases or {c['QUICK']['secs']} s; thorough {c['THOROUGH']['n']} cases or {c['THOROUGH']['secs']} s (whichever comes first). Minimum events: {', '.join(f'{v} {k}' for k, v in c.get('MIN', {}).items())}.\n")
        if c.get("ASSUMPTIONS"):
            o.append(f"*Assumes*: {'; '.join(c['ASSUMPTIONS'])}.\n")
        o.append(f"*Beyond tests, and limits*: {WHY[i]}\n")
    o.append("## Seeded bugs, and what catches them\n\nEach was written from the text of a property and the code; `tools/mkbugs.py` builds it, confirms that the stable tests pass with it and that its demonstration fails, and runs the check of the property (quick, seed 1).\n")
    o.append("| bug | needs | caught by |\n|---|---|---|")
    caught = json.load(open(f"{V}/tools/caught.json")) if os.path.exists(f"{V}/tools/caught.json") else {}
    for d in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
        b = os.path.basename(os.path.dirname(d))
        m = json.load(open(d))
        res = caught.get(b, {})
        o.append(f"| {b} | {m['needs']} | {'; '.join(f'{k}: ' + v.replace('caught ', '') for k, v in res.items()) or m['property']} |")
    o.append(open(f"{V}/tools/design_tail.md").read())
    open(f"{V}/DESIGN.md", "w").write("\n".join(o))


main()
