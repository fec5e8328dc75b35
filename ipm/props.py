"""The properties and the rules that decide them."""
from .rules import comm, commands, files, inputs, names

AGREE = ("abstract execution of every function the property is anchored in (all paths, symbolic inputs, loops as "
         "recurrences and aggregates) to a closed normal form, compared with the normal form of a specification")
TECH = "abstract interpretation to normal form, compared with a specification"

ASSUMPTIONS = [
    "numbers are exact: rounding is not modelled",
    "library functions behave as documented for the pinned versions",
    "no code outside the package changes its module variables",
    "an obligation the analysis cannot decide (code organised in a way it does not recognise) raises no alarm",
]

NOTES = ("Decides the structural content of the property from the source, for all inputs and paths: an obligation is "
         "proved when code and specification have the same normal form, violated when they differ in a way that changes "
         "the result, undecided (listed in the evidence, no alarm) otherwise. Trusts the abstract executor, the "
         "normalisation rules, the specifications in ipm/spec and the documented behaviour of the libraries.")

NOT_APPLICABLE = {
    "C40": "quantifies over floating-point results of iterative eigensolvers and truncated recurrences; no static bound in reach",
    "C41": "convergence of an iterative solver is a run-time quantity; whether the message follows from the returned flag is part of C23's scope, the convergence itself cannot be bound from the source",
    "C42": "the values come from sympy at run time; the code only selects arguments (which C08 and C28 cover)",
    "C43": "memory and wall time are measurements, not visible in the source",
}


def P(how=AGREE, *rules, technique=TECH):
    return {"how": how, "rules": list(rules), "technique": technique}


PROPS = {f"C{i:02d}": P() for i in range(1, 29)}
PROPS["C22"] = P(AGREE + "; option tables and error conditions of the programs against documented calls", *commands.RULES,
                 technique=TECH + "; option-table query over programs, scripts and documentation")
PROPS["C13"] = P(AGREE + "; " + comm.__doc__.split("\n", 1)[0][5:], *comm.RULES,
                 technique=TECH + "; taint analysis of the conditions around communications")
PROPS["C03"] = P(AGREE + "; " + " ".join(inputs.__doc__.split("\n\n")[0][5:].split()), *inputs.RULES,
                 technique=TECH + "; flow-sensitive may-alias analysis of in-place operations")
PROPS["C04"] = P(AGREE + "; aliasing between results and cached entries", *inputs.RULES04,
                 technique=TECH + "; flow-sensitive may-alias analysis of results and cache entries")
PROPS["C15"] = P(AGREE + "; condition on the rank around every file operation", *files.RULES15,
                 technique=TECH + "; effect analysis of file operations")
PROPS["C21"] = P(AGREE + "; names asked for by readers against names written", *files.RULES21,
                 technique=TECH + "; query over dataset names")
PROPS["C27"] = P(names.__doc__.split("\n\n", 1)[1].strip(), *names.RULES,
                 technique="scope resolution, reaching assignments and signature binding over the syntax tree")
