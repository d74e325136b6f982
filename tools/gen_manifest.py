#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUNE = 'abstract interpretation of the scanner against a lexical automaton (SSA, character-class domain)'
T = {
 'C01': ('abstract interpretation of the element parsers against grammar automata (SSA, token-class domain)', "Accepted token sequences are sentences. All token sequences, all paths, both modes, with and without body comments; inductive over the grammar (each parser is verified under the others' specifications). Trusts the scanner contract (C17-C21) and go/ssa."),
 'C02': ('abstract interpretation of the element parsers against grammar automata (SSA, token-class domain)', "Refused ones are not. All token sequences, all paths, both modes, with and without body comments; inductive over the grammar (each parser is verified under the others' specifications). Trusts the scanner contract (C17-C21) and go/ssa."),
 'C03': ('abstract interpretation of the element parsers against grammar automata (SSA, token-class domain)', "Results compared as symbolic texts. All token sequences, all paths, both modes, with and without body comments; inductive over the grammar (each parser is verified under the others' specifications). Trusts the scanner contract (C17-C21) and go/ssa."),
 'C04': ('abstract interpretation of the element parsers against grammar automata (SSA, token-class domain)', "Results compared as symbolic texts. All token sequences, all paths, both modes, with and without body comments; inductive over the grammar (each parser is verified under the others' specifications). Trusts the scanner contract (C17-C21) and go/ssa."),
 'C05': ('abstract interpretation of the element parsers against grammar automata (SSA, token-class domain)', "Lists of any length, compared element by element. All token sequences, all paths, both modes, with and without body comments; inductive over the grammar (each parser is verified under the others' specifications). Trusts the scanner contract (C17-C21) and go/ssa."),
 'C06': ('abstract interpretation of the element parsers against grammar automata (SSA, token-class domain)', "Positions compared symbolically, character level for one-character tokens and texts. All token sequences, all paths, both modes, with and without body comments; inductive over the grammar (each parser is verified under the others' specifications). Trusts the scanner contract (C17-C21) and go/ssa."),
 'C07': ('abstract interpretation of the element parsers against grammar automata (SSA, token-class domain)', "Every comment's place is compared. All token sequences, all paths, both modes, with and without body comments; inductive over the grammar (each parser is verified under the others' specifications). Trusts the scanner contract (C17-C21) and go/ssa."),
 'C08': ('abstract interpretation of the element parsers against grammar automata (SSA, token-class domain)', "Every comment's place is compared, with the line relation as part of the state. All token sequences, all paths, both modes, with and without body comments; inductive over the grammar (each parser is verified under the others' specifications). Trusts the scanner contract (C17-C21) and go/ssa."),
 'C10': ('abstract interpretation of the element parsers against grammar automata (SSA, token-class domain)', "Every error return. All token sequences, all paths, both modes, with and without body comments; inductive over the grammar (each parser is verified under the others' specifications). Trusts the scanner contract (C17-C21) and go/ssa."),
 'C11': ('abstract interpretation of the element parsers against grammar automata (SSA, token-class domain)', "Findings that occur in one mode only. All token sequences, all paths, both modes, with and without body comments; inductive over the grammar (each parser is verified under the others' specifications). Trusts the scanner contract (C17-C21) and go/ssa."),
 'C15': ('abstract interpretation of the element parsers against grammar automata (SSA, token-class domain)', "Push-back is modelled exactly. All token sequences, all paths, both modes, with and without body comments; inductive over the grammar (each parser is verified under the others' specifications). Trusts the scanner contract (C17-C21) and go/ssa."),
 'C16': ('abstract interpretation of the element parsers against grammar automata (SSA, token-class domain)', "Scanning modes and identifier classes. All token sequences, all paths, both modes, with and without body comments; inductive over the grammar (each parser is verified under the others' specifications). Trusts the scanner contract (C17-C21) and go/ssa."),
 'C09': ('abstract interpretation of the element parsers against grammar automata, and of the comment collection with an inductive list invariant', "All token sequences, all paths, both modes, with and without body comments; recorded comments as a list of any length."),
 'C12': ('loop analysis on the abstract state graphs of scanner, parser, visitor and interpreter', "Every cycle of the abstract state graphs must consume source or list elements; other API functions by the shape of their loops. Inductive, no bound on the input."),
 'C13': ('abstract interpretation of every instruction that can panic, on all paths of scanner, parser, visitor, interpreter and accessors', "All paths, lists and texts of any length; other API functions must not hold an instruction that can panic."),
 'C17': (RUNE, "All characters in all 64 mode combinations from every history. Inductive over scans; trusts bufio and the unicode tables."),
 'C18': (RUNE, "All characters in all 64 mode combinations from every history. Inductive over scans; trusts bufio and the unicode tables."),
 'C19': (RUNE, "All characters in all 64 mode combinations from every history. Inductive over scans; trusts bufio and the unicode tables."),
 'C20': (RUNE, "Raw text and put-back text as symbolic lists of any length. Inductive over scans; trusts bufio and the unicode tables."),
 'C21': (RUNE, "Symbolic affine positions, every class of characters. Inductive over scans; trusts bufio and the unicode tables."),
 'C26': ('abstract interpretation of scanner and element parsers with a reader that can fail at any point', "A failure of the reader at every read; all paths. Trusts bufio."),
 'C29': ('abstract interpretation of Parse over symbolic option values, compared with the directly assembled parser', "Every order of the four options and every value; the element parsers are analysed once more with debug on."),
 'C14': ('recursion analysis of the call graph (SSA)', 'Sound for stack growth by recursion in the repository under a conservative call graph: every recursive cycle must contain a call guarded by an opening-bracket test on all paths or a descent into AST memory. Trusts that the standard library needs bounded stack.'),
 'C22': ('abstract interpretation of the Accept methods over a symbolic AST', 'All paths of all Accept methods, lists of any length; inductive over the AST. Trusts the go/ssa translation and that lists hold no nil (C05).'),
 'C23': ('abstract interpretation of the Accept methods over a symbolic AST', 'All paths of all Accept methods, lists of any length; inductive over the AST.'),
 'C24': ('abstract interpretation of the Interpret functions with inductive list invariants', 'All paths, bodies of any length and any mix of element types; inductive over the AST.'),
 'C25': ('abstract interpretation of the Interpret functions over every body element type', 'All paths, bodies of any length and any mix of the element types of the grammar; inductive over the AST.'),
 'C27': ('effect and escape analysis of package variables (SSA)', 'Every memory write and every use of a package variable in functions reachable from the API is classified. Trusts that the standard library functions in use are reentrant.'),
 'C28': ('interprocedural write-effect analysis (SSA)', 'Every memory write reachable from visiting, interpreting or accessors is traced to its origins; none may lead to AST memory.'),
 'C30': ('effect analysis of calls and globals (SSA)', 'Every outside function and variable referred to from API-reachable code is classified by a deny list; the full list is in the evidence.'),
 'C31': ('abstract interpretation over structured strings', 'Every comment text of either style; trusts the documented meaning of the strings functions.'),
 'C32': ('abstract interpretation split by the code\'s own comparisons', 'Every version string.'),
}
NA = {
 'C33': 'a bound on running time and allocation as a function of the input length is a runtime quantity; no sound static cost analysis of this Go code (maps, slices that grow, bufio) is in reach',
 'C34': 'agreement with protoc is a relation to another program that is not available here and whose grammar is not part of this repository',
}
PENDING = 'the static analysis that decides it is not finished; it is not claimed yet'
ids = [json.loads(l)['id'] for l in open(here + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [], 'not_applicable': [],
     'notes': 'Every check is static analysis of /repo\'s current source (go/packages, go/ssa): see DESIGN.md. The commits in /repo are fixes of genuine defects; there are no hooks.'}
for i in ids:
    if i in T:
        t, n = T[i][:2]
        m['checks'].append({'property': i, 'quick_cmd': './run.sh ' + i, 'thorough_cmd': './run.sh ' + i, 'technique': t, 'level': 'other', 'level_note': n})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, PENDING)})
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
