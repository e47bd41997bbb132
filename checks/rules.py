"""Rules decided over the call graph and the statements of the library."""
import json, os, subprocess
import ir

LTO = ('-flto', '-fwhole-program-vtables', '-fvisibility=default')
ASSERT = LTO + ('-UNDEBUG', '-I', os.path.join(ir.VERIF, 'driver', 'assert'))


def rule(name, what, cfgs, minimum):
    def go(tier):
        q = ir.tool('qacg')
        res = {'rule': what, 'obligations': 0, 'discharged': 0, 'violations': [],
               'undecided': [], 'builds': {}}
        for cfg in cfgs:
            raw = name == 'assert'
            mod = ir.module(cfg, ['d_roots.cpp'], ASSERT if raw else LTO,
                            passes='verify' if raw else 'function(sroa)')
            r = subprocess.run([q, mod, '--src', os.path.join(ir.REPO, 'src') + '/',
                                '--rule', name], stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, text=True)
            if r.returncode:
                raise ir.Broken('qacg: ' + r.stderr[-2000:])
            d = json.loads(r.stdout)
            if d['obligations'] < minimum:
                raise ir.Broken('%s: only %d obligations' % (name, d['obligations']))
            for v in d.pop('violations'):
                res['violations'].append({'cfg': cfg, 'harness': 'call graph', **v})
            for v in d.pop('undecided'):
                res['undecided'].append('%s: %s: %s' % (cfg, v['label'], v['msg']))
            res['obligations'] += d['obligations']
            res['discharged'] += d['discharged']
            res['builds'][cfg] = d
        return res
    return go


throw = rule('throw', 'from each operation of the C interface, the types of the exceptions every call site '
             'may let out (virtual calls resolved over the class hierarchy, handlers filter by type) '
             'must all be caught', ('OFF', 'AVX'), 20)
effects = rule('effects', 'no function reachable from the API, diagnostics aside, calls a forbidden external, '
               'uses a standard stream object, uses a mutable global, or lets a clock reading reach '
               'a branch, an index, a call or data', ('OFF', 'AVX'), 1000)
asserts = rule('assert', 'between the start and the end of the operand of each assertion nothing is written but '
               'temporaries, directly or through the functions it calls', ('OFF', 'AVX'), 50)
