#!/usr/bin/env python3
"""Writes the per-property part of /verif/DESIGN.md (between the two marker lines) from the oracle notes here, the bounds
stated in checks/ and, for the size and cost, the evidence of the last run."""
import json, os, re, sys, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
ORACLE = dict(
    C01='coordinate formulas of affine algebra, written out in the harness, for every pair of point/vector classes; class of each result',
    C02='Euclidean identities (dot, cross, Lagrange, unit length, Pythagoras); angles are points of the unit circle (c²+s²=1), so trigonometric results are decided algebraically',
    C03='the base-plus-offset formula recomputed after arbitrary moves; fixed versions compared with the formula at the moment they were taken',
    C04='component-wise equality formula; squared-distance comparison for closeness; mutation of either side after copying',
    C05='rounding as an integer variable k with |x·10ⁿ−k| ≤ 1/2, independently introduced for code and oracle',
    C06='min/max of the inputs as written by the caller',
    C07='lattice laws: upper bound, least among all upper bounds, neutral element, operands unchanged',
    C08='coordinate characterisation of each predicate plus the mutual relations',
    C09='edge-wise formulas; tightness by attained corners; containment of a convex combination parameterised by symbols',
    C10='incidence and orthogonality equations',
    C11='incidence equations at the reported fractions; completeness by parameterising all proper crossings',
    C12='shoelace sum written out',
    C13='the list of points the caller meant, all mixtures of entry forms',
    C14='the affine formula',
    C15='cancellation with the forward map; comparison with a freshly constructed transform after the same history',
    C16='explicit 3x3 products', C17='a model stack of matrices kept by the harness',
    C18='the corner equations; equal scales; centre equations', C19='rotation by (c,s) with c²+s²=1',
    C20='recomposition equals the original; classification by zero patterns',
    C21='squared column lengths', C22='Bernstein form, written out', C23='polynomial identity of both halves with the original in the parameter',
    C24='handle-wise formulas; Bernstein form for lists', C25='Bernstein samples under the matrix product, joined once',
    C26='the original pieces, and the split piece equal to the original polynomial on both halves',
    C27='Bernstein form at whatever parameters the (replaced) library answers', C28='each piece equal to a sub-interval of an original cubic',
    C29='the paths the original draws, mapped by the matrix; comparison modulo start and direction for closed outlines',
    C30='min/max over every drawn sample; tightness for straight handles', C31='stack depth and matrix before and after, exception at every position',
    C32='snapshots of every component before and after', C33='evaluation of the dumped text in a namespace made from its own imports, symbolic numbers travelling through the text as opaque tokens',
    C34='the unit-circle curve with radial deviation decided as a polynomial inequality over the parameter; everything else reduced to it by affinity',
    C35='containment, tangency and radius equations', C36='squared distance of the offset point to both adjoining lines with sign',
    C37='a model dictionary kept by the harness', C38='the tree walked by the harness with matrices multiplied by the harness',
    C39='the paths of the original element', C40='path lists assembled by the harness from those of the members',
    C41='the formula for each animation at the symbolic time', C42='linear interpolation of handles; snapshots', C43='piecewise linear interpolation between targets',
    C44='piecewise formulas; angles as unit-circle points', C45='the sequence of frame times and the corner equations of the viewport',
    C46='table of documented styles', C47='record of the calls a stand-in image received (positions, widths, order)',
    C48='integer number of turns as a variable', C49='distance and angle equations (unit-circle points)', C50='distance equations and the sign of the cross product',
    C51='bilinear interpolation, written out (numpy/scipy parts replaced by stand-ins of the same definition)', C52='component formulas; kernel positivity; normalisation equations',
    C53='component-wise distance against the tolerance', C57='lists assembled from members; calls recorded by a stand-in image', C58='the requested geometry and the table of pens',
    C59='inequalities of the box and the times; stand-in images record what happens to them',
    C60='snapshots of everything given before and after; the answer of an object newly built in the new state; mutation of either side of a result',
    C61='snapshots of everything given before and after the refusal')
import gen_manifest


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    out = []
    for p in props:
        i = p['id']
        out.append('### %s %s' % (i, p['title']))
        f = os.path.join(HERE, 'checks', i + '.py')
        if not os.path.exists(f):
            out.append('Not applicable: %s.\n' % gen_manifest.NA[i])
            continue
        out.append('Oracle: %s.' % ORACLE[i])
        e = json.load(open(os.path.join(HERE, 'evidence', i + '.json')))
        hb = {}
        for n, b in e['harness_bounds'].items():
            hb.setdefault(n.split('[')[0], b)
        src = open(f).read()
        order = [n for n in re.findall(r'^def (\w+)\(h', src, re.M) if n in hb]
        out += ['- `%s`: %s' % (n, hb[n]) for n in order]
        out.append('Size (quick): %d paths, %d obligations, %d queries, %.0f s.\n' % (e['coverage']['states'], e['obligations'], e['queries'], e['wall_s'] + .5))
    f = os.path.join(HERE, 'DESIGN.md')
    t = open(f).read()
    a, b = '<!-- properties: begin -->\n', '<!-- properties: end -->'
    i, j = t.index(a) + len(a), t.index(b)
    t = t[:i] + '\n'.join(out) + '\n' + t[j:]
    a, b = '<!-- seeds: begin -->\n', '<!-- seeds: end -->'
    i, j = t.index(a) + len(a), t.index(b)
    missed = open(os.path.join(HERE, 'tools', 'missed_first.txt')).read().split()
    rows = [l.split() for l in open(os.path.join(HERE, 'tools', 'seed_results.txt'))]
    rows = [r for r in rows if os.path.isdir(os.path.join(HERE, 'seeded', r[0]))]
    by = {}
    for r in rows:
        by.setdefault(r[1], []).append('%s%s%s' % (r[0], '*' if r[0] in missed else '', ' (%s)' % ', '.join(r[3:]) if r[2] == '1' else ' MISSED'))
    seeds = ['%d planted bugs, %d caught by the check of their property; %d of them (*) were missed when first planted and led to stronger checks. '
             'In brackets the harnesses which report each.' % (len(rows), sum(r[2] == '1' for r in rows), sum(r[0] in missed for r in rows)), '']
    seeds += ['- %s: %s' % (p, '; '.join(by[p])) for p in sorted(by)]
    open(f, 'w').write(t[:i] + '\n'.join(seeds) + '\n' + t[j:])


main()
