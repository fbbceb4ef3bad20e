#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties below."""
import json
T = {}  # id -> (technique, note)
def t(i, tech, note): T[i] = (tech, note)
B = "Explicit-state enumeration of the real code"
t("C01", "explicit enumeration of all measure pairs/triples x points x evaluation routes on the real code",
  "Exhaustive over the listed families, parameter grids and points; the reference log-densities are written independently from textbook formulas (f64). Values between grid points are not covered.")
t("C02", "explicit enumeration of families x parameters x points against textbook log-densities, both precisions",
  "Exhaustive over the parameter and point grids; discrete masses summed to 1. Reference numerics (log-gamma etc.) are our own.")
t("C03", "explicit enumeration of families x parameters x support points, identity checked on the real code",
  "Exhaustive over the grids. NegativeBinomial's natural parameter is a listed finding.")
t("C04", "exhaustive exploration of all observation sequences up to a depth, every route replayed on the real code",
  "All sequences up to the depth over a point alphabet, incl. orderings, splits and the empty sequence.")
t("C05", "exhaustive exploration of builder call sequences, replayed on the real code against a term-list model",
  "All builder sequences up to the depth over the four term kinds; term functions record their calls.")
t("C06", "exhaustive exploration of evaluation histories on cached log-densities against the uncached value",
  "All call histories up to the depth, two caches side by side.")
t("C07", "explicit enumeration of distributions x parameters x points x call orders for every compiled route",
  "Exhaustive over grids; NegativeBinomial is a listed finding.")
t("C08", "exhaustive exploration of combinator programs up to a nesting depth against a measure-theoretic model",
  "All nestings up to the depth over the component alphabet, at all points of a grid.")
t("C09", "exhaustive exploration of transformation chains x base measures x points against a change-of-variables model",
  "All chains up to the depth; Jacobians from closed forms.")
t("C10", "explicit enumeration of all arguments in range against exact recurrences",
  "Every argument in the stated ranges, both precisions.")
t("C20", "explicit enumeration of parameter values x constructors x accessors against validity predicates and closed-form moments",
  "Exhaustive over the alphabets incl. boundary, negative and NaN values.")
t("C23", "explicit enumeration of type pairs x boundary values and of vectors up to a length",
  "All type pairs offered, all boundary values.")
t("C11", "explicit enumeration of expression trees x assignments, the real simplifier against a reference semantics",
  "All trees of height 2 (and chains of frames to depth 4-5, height-3 families over smaller alphabets) x 13 assignments; rounding judged by a running error bound.")
t("C12", "explicit enumeration of expression trees and of optimiser histories on the real e-graph optimiser",
  "All trees up to the stated size over stated alphabets, all histories of the stated length on one instance; each against a reference semantics.")
t("C13", "explicit enumeration of expression trees x variable bindings x call forms x arguments on the real native code",
  "All trees of height 2 over a leaf alphabet, all assignments of roles to variables in all orders; worker processes, a crash of the native code is a violation.")
t("C14", "explicit enumeration of expression trees x assignments (complete and partial) x evaluation routes x batch lengths",
  "Every route on every tree and assignment within the bounds, against a reference semantics.")
t("C21", "explicit enumeration of expression trees printed by the real code and re-read by an independent reader",
  "All trees of height 2 in seven forms, all chains to depth 3-5 in three notations, constants over the whole exponent range.")
t("C15", "explicit enumeration of tagless programs run under every interpreter of the real code",
  "All programs of the bounded grammar under every interpreter, each against a reference semantics.")
t("C18", "explicit enumeration of data sequences x parameter tuples x routes through the Bayesian layer",
  "All data sequences up to a length over an alphabet, all parameter tuples; every route against the textbook posterior.")
t("C19", "explicit enumeration of expression trees and call forms through the general-purpose JIT",
  "All trees of the bounded grammar in the general-purpose expression language, evaluated, simplified and compiled.")
t("C22", "explicit enumeration of builder forms and of substitution histories on the real code",
  "All builder forms over the bounded operands, all substitution/simplification histories up to a depth.")
t("C16", "explicit enumeration of patterns x interpreters x constant/variable splits x parameter and point grids, and of observation sequences",
  "All patterns on all grid points under five interpreters; all sequences up to length 4; points in the support.")
t("C17", "stateless model checking of the real code under a controlled scheduler (preemption-bounded enumeration of all interleavings), each history checked against a state-set simulation of the abstract caches; plus exhaustive call histories",
  "All interleavings at lock operations of the listed program families up to the stated preemption bounds, 2-3 threads; sequentially consistent memory. All call sequences up to depth 3 (thorough 4).")
import os
extra = os.path.join(os.path.dirname(__file__), "manifest_more.py")
if os.path.exists(extra):
    exec(open(extra).read())
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        tech, note = T[i]
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",
            evidence_file=f"evidence/{i}.json", technique="model checking: " + tech, level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
  notes="No hooks in /repo. Commits in /repo are unguarded 'fix:' repairs only; see known-findings.txt and DESIGN.md."),
  open("/verif/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(checks), "claimed;", len(na), "not")
