#!/usr/bin/env python3
"""Writes the configurations of the calculator models (spec/MC{Uint,Int,Ratio}_*.cfg)."""
import os
SPEC = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec')

def cfg(mod, kind, tier, consts, moves, depth, bits):
    with open(os.path.join(SPEC, '%s_%s_%s.cfg' % (mod, kind, tier)), 'w') as f:
        f.write('SPECIFICATION Spec\nVIEW View\nCONSTANTS\n  StartX <- OfX\n  StartY <- %s\n  StartZ <- OfZ\n' % ('OfX' if mod == 'MCRatio' else 'OfY'))
        for k, v in consts.items():
            f.write('  %s %s\n' % (k, v))
        law = {'Text': 'LawsNone'}.get(kind, 'Laws' + kind) if mod == 'MCRatio' else 'LawsNone' if (mod, kind) == ('MCInt', 'Funcs') else 'Laws' + kind
        f.write('  Moves <- %s\n  Looks <- Looks%s\n  MaxDepth = %d\n  MaxBits = %d\n  Every = 1\n  Pick <- Apply\n  More <- NoMore\nINVARIANTS AllCanonical MovesAllowed %s Written\n' % (moves, kind, depth, bits, law))

for k in ('Add', 'Mul', 'Div', 'Order', 'Machine', 'Text', 'Funcs'):
    cfg('MCUint', k, 'quick', {'Limbs': '<- Few', 'LenX': '= 3', 'LenY': '= 2'}, 'MovesU', 1, 256)
    cfg('MCUint', k, 'thorough', {'Limbs': '<- Some', 'LenX': '= 3', 'LenY': '= 2'}, 'MovesU', 2, 384)
for k in ('Int', 'Order', 'Machine', 'Text', 'Funcs'):
    cfg('MCInt', k, 'quick', {'Limbs': '<- Few', 'LenX': '= 2', 'LenY': '= 2'}, 'MovesI', 1, 256)
    cfg('MCInt', k, 'thorough', {'Limbs': '<- Few', 'LenX': '= 3', 'LenY': '= 2'}, 'MovesI', 2, 384)
for k in ('Ratio', 'Round', 'Order', 'Machine', 'Text'):
    cfg('MCRatio', k, 'quick', {'Nums': '<- SmallNum', 'Dens': '<- SmallDen'}, 'MovesR', 1, 512)
    cfg('MCRatio', k, 'thorough', {'Nums': '<- WideNum', 'Dens': '<- WideDen'}, 'MovesR', 2, 512)
