"""Technique/notes for the checks added after the first milestone (kept apart so that mkmanifest.py stays short)."""
TECH2 = {
 "C03": "TLA+ state machine of a program with safe variables (SafeMachine), model checked on a toy machine; behaviours generated by TLC are replayed on the real library and the recorded histories validated step by step",
 "C04": "TLA+ state machine of a program with safe variables (SafeMachine), model checked on a toy machine; behaviours generated by TLC are replayed on the real library and the recorded histories validated step by step",
 "C08": "TLA+ model of conversions (SafeOps/OpsTrace), TLC validates recorded constructions, assignments, conversions and casts",
 "C11": "TLA+ model of the checked primitives (Checked), exhaustive at toy width with TLC; TLC validates recorded results of the real primitives",
 "C12": "TLA+ tables of extended integers (ExtInt) shown sound by TLC; TLC validates the recorded operators on checked_result",
 "C13": "TLA+ interval arithmetic (Interval) shown enclosing by TLC; TLC validates recorded interval results and predicates",
 "C14": "TLA+ model of error classes, handlers and deliveries (Dispatch); TLC validates the recorded calls of logging, predefined and throwing handlers",
 "C15": "TLA+ model of which operations can fail (Trap), checked against enumeration by TLC on a toy machine; TLC validates the compiler's recorded answers under trap policies and the outcomes of the same operations at run time",
 "C16": "TLA+ model of the operators (SafeOps/OpsTrace); TLC validates recorded constant expressions (accepted or not, value) together with the same operation at run time",
 "C17": "TLA+ model of numbers as text (Streams), exhaustive over short texts with TLC; TLC validates recorded stream output and input of the real library",
 "C19": "TLA+ model of comparison and bit utilities (Bits/PrimsTrace), TLC validates recorded answers",
 "C18": "TLA+ model of literals (Types: the type a digit string denotes, SafeOps: the operators); TLC validates recorded literal objects, their operators and their constant expressions",
 "C20": "TLA+ model of the compile-time facts (Types: numeric_limits, traits, policies of a result, programs refused); TLC validates the facts recorded from the compiler",
}
NOTE2 = {}
