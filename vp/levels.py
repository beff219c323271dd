LEVEL = {}
TRUSTED = ['z3 5.3.2', 'cvc5 1.1.2', 'CPython 3.12', 'the vp symbolic executor, array and sum theory (/verif/vp/engine)',
           'the contracts assumed on numpy, scipy and menpo (/verif/vp/engine/shim.py, /verif/vp/proofs/common.py)']
ASSUME = ['floating point arithmetic is treated as real arithmetic',
          'functions of numpy, scipy and menpo behave as their assumed contracts state',
          'division by zero yields an unspecified value (recip is uninterpreted at 0)']
NA = {}
NOTE = {}
DEFAULT_NOTE = ('Contracts on the functions listed in the evidence file are discharged for all inputs (symbolic sizes, '
                'values and iteration counts) from the source in /repo; assumes the stated contracts of numpy, scipy '
                'and menpo and real-number arithmetic. Run-time contract evaluation (bounded, seeded) replays refuted '
                'obligations and stands in for functions the evidence lists as undecided; it is not counted as proved.')
