#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one source for both)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SAVER = 'aesolver/aesolver/data_handling/data_specific/hdf5_saver.py'
HS = 'aesolver/aesolver/data_handling/data_specific/hdf5_specific/'
UNP = 'aesolver/aesolver/data_handling/unpacker.py'
ANA = 'aesolver/ae_analyzer/quadratic_stationary_analyzer.py'
ANMASK = 'aesolver/ae_analyzer/library_functions/masking.py'
ANRUN = 'aesolver/aerunners/analyze_quadratic.py'
LOADN = 'aesolver/aesolver/read_load_info/load_name_plots.py'
PLO = 'aesolver/aeplotter/quadratic_plotter.py'
PLOFIG = 'aesolver/aeplotter/overview_plot/figure_class.py'
PLRUN = 'aesolver/aerunners/plot_quadratic.py'
HI = 'aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py'
STO = 'aesolver/aesolver/data_handling/storer.py'
GRID = 'aesolver/aesolver/solver/quadratic_grid.py'
QS = 'aesolver/aesolver/solver/solver_base_classes/quadratic_solver.py'
PROF = 'aesolver/aesolver/solver/quadratic_profile.py'
RUNNER = 'aesolver/aerunners/solve_quadratic.py'
INP = 'aesolver/aesolver/mode_input_generator/input_generator.py'
NI = 'cpp-numintegrator/num_integrator/'
LD = 'cpp-ld-funcs/ld_funcs/'
DI = 'cpp-disc-integrator/disc_integrator/'
HJ = 'histogram_maker/hogg_jacky/'


def P(id, title, statement, over, text, why, files, mech, observe=(), state=(), hook=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                             state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             observe_at=list(observe), hook_needed=hook))


exec(open(os.path.join(V, 'tools', 'props_def.py')).read())

if __name__ == '__main__':
    have = [p for p in PROPS if os.path.exists(os.path.join(V, 'props', p['id'].lower() + '.py'))]
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in have + [q for q, _ in NA]:
            f.write(json.dumps(p) + '\n')
    m = {
        'version': 1,
        'setup_cmd': 'python3 sim/build.py',
        'hooks': {'guard': 'none', 'enable': 'no hook was needed: file system, clock, memory and OpenMP are intercepted at link or '
                  'load time, outside /repo', 'source_commits': []},
        'checks': [dict(property=p['id'], quick_cmd=f'python3 check.py {p["id"]}',
                        thorough_cmd=f'python3 check.py {p["id"]} --tier thorough',
                        evidence_file=f'evidence/{p["id"]}.json',
                        technique='deterministic simulation with fault injection (seeded search)',
                        level='exploration', level_note=NOTES[p['id']]) for p in have],
        'not_applicable': [dict(property=q['id'], reason=r) for q, r in NA],
    }
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(have), 'claimed,', len(NA), 'not applicable')
