#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, ROOT)
from hs.levels import LEVEL
TECH = 'deterministic simulation with fault injection: the real hush binary under a seeded scheduler and simulated kernel; '
T = {
 'P01': 'captured bytes compared with the kernel history of the writers', 'P02': 'byte streams of every pipe compared end to end, deadlock detection', 'P03': 'reported failures compared with the simulated exit statuses', 'P04': 'start/exit order of processes checked against the block',
 'P05': 'async blocks and joins checked against the process history', 'P06': 'file contents, offsets and truncations checked against the redirections', 'P07': 'bytes read by commands compared with the given input, deadlock detection', 'P08': 'descriptor tables of every started process inspected',
 'P09': 'descriptors, threads, children left after every block, under system-call failures', 'P10': 'system-call failures injected at seeded points, outcome and recovery judged', 'P11': 'argv of every process compared with the words, wildcards against a model file system', 'P12': 'environment of every process compared with a model',
 'P13': 'working directory of every process compared with a model file system', 'P14': 'output history with failing, short and interrupted writes', 'P15': 'input history with short, delayed and failing reads', 'P16': 'unreadable, truncated and invalid scripts, exit statuses',
 'P17': 'import graphs on a model file system with failing reads', 'P18': 'caught panics at seeded points, following state compared with a model', 'P19': 'simulated clock with interrupted sleeps and wall clock jumps', 'P20': 'metamorphic: the same script under different schedules, soft faults, addresses and clocks',
 'P21': 'replaced and spawned programs checked against the request, failing exec'}
NOTE = 'Seeded search, no exhaustive guarantee: holds on every simulated run explored. Trusts the simulated kernel interface (sim/sim.cc) to represent Linux and the reference model (hs/model.py); hush itself, Rust std and all crates run unmodified.'
NA = {
 'N01': 'Pure computation: no concurrency, time, I/O or fault can influence it, so a simulator has no schedule or fault to choose.',
 'N02': 'Pure function of the program text; no schedule, clock, I/O or fault to control.',
 'N03': 'Pure function of the bytes once they are read (that they are wholly read is P16); a question for fuzzing or proof.',
 'N04': 'Pure functions on values; nothing nondeterministic to control.',
 'N05': 'Algebraic laws of pure functions; nothing nondeterministic to control.'}
M = {'version': 1, 'setup_cmd': 'python3 -m hs.build',
 'checks': [{'property': p, 'quick_cmd': './check %s quick' % p, 'thorough_cmd': './check %s thorough' % p, 'technique': TECH + T[p], 'level': LEVEL[p], 'level_note': NOTE} for p in sorted(T)],
 'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
 'notes': 'No hooks in /repo: the seam is the C library interface, interposed by sim/sim.cc. /repo carries only "fix:" commits, listed in KNOWN_FINDINGS. Replays: ./replay FILE.'}
json.dump(M, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
