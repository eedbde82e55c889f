#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
T = {
 'C01': 'model-based stateful PBT against a reference slave, coverage-guided generation',
 'C02': 'model-based stateful PBT against a reference slave (reply and all application data)',
 'C03': 'model-based PBT against a reference slave over boundary-biased invalid requests',
 'C04': 'fault-injecting PBT: damaged, truncated, foreign frames against a silence/no-change oracle',
 'C05': 'stateful PBT of frame histories under random schedules, reference slave and probe',
 'C06': 'schedule fuzzing with interrupts injected at instrumented edges, order predicate over the driver trace',
 'C07': 'PBT with an independent bitwise CRC and frame grammar over every transmitted frame',
 'C08': 'fault-injecting PBT: guaranteed-detectable error patterns on generated frames',
 'C09': 'PBT of request API against a reference encoder',
 'C10': 'stateful PBT of legal/illegal request sequences against a capacity model',
 'C11': 'model-based stateful PBT against a FIFO/capacity model',
 'C12': 'stateful PBT against a reference response decoder',
 'C13': 'stateful PBT against a reference response decoder',
 'C14': 'PBT with non-matching intact responses, no-delivery oracle',
 'C15': 'schedule and line-behaviour fuzzing, one-outcome/liveness oracle',
 'C16': 'schedule PBT with a timing-window oracle',
 'C17': 'fault-sequence PBT against a retry model',
 'C18': 'PBT with foreign traffic, expected-outcome model',
 'C19': 'differential stateful PBT: after a history vs on a fresh master',
 'C20': 'coverage-guided fuzzing of operation sequences under ASan and UBSan with a loop bound',
 'C21': 'stateful PBT of master and slave connected end to end, data-equality oracle',
 'C22': 'differential PBT: after re-initialisation vs first start',
 'C23': 'differential PBT: merged operation lists vs solo runs',
 'C24': 'PBT over table-size configurations, reference slave and ASan',
 'C25': 'schedule fuzzing with interrupts injected at instrumented edges, expected-outcome model',
 'C26': 'stateful PBT of operation sequences outside RTU mode, inertness oracle, then differential and reference comparison in RTU mode',
 'C27': 'stateful PBT of registrations mixed with requests (also in mid-frame) against a model of the address map',
 'C28': 'fuzzing of operations and interrupts with a monitor on every transmission, callback and change of application data',
 'C29': 'stateful PBT of an idle master (traffic, events in polls, ticks, refused requests) with a nothing-happens oracle, then requests against the reference decoder',
}
NOTE = ('Generated-input search: no violation among the cases of the run (counts in the evidence file); no proof beyond them. '
        'Trusts the harness (driver simulation, reference models, interrupt injection at instrumented edges) and the sanitizers; '
        'driver behaviour as stated under Assumptions in DESIGN.md.')
P = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = dict(version=1, setup_cmd='python3 tools/build.py',
         checks=[dict(property=p['id'], quick_cmd='./run_check.sh ' + p['id'], thorough_cmd='VERIF_TIER=thorough ./run_check.sh ' + p['id'],
                      technique=T[p['id']], level='exploration', level_note=NOTE) for p in P],
         not_applicable=[], notes='No hooks in /repo: interrupts are injected through compiler instrumentation.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
