"""Per-property registry: which drivers decide it, in which build configurations, at what scale."""
R = 'Each case is generated from VERIF_SEED and its section/index; a case is non-trivial when its preconditions held and an oracle judged it (near-degenerate inputs are skipped and counted); distinct = distinct hash of the printed input.'

def run(driver, variant='asan', scale=1, **k):
	label = variant + ''.join('+'+f.replace('-D','').replace('=','_').replace('/','_') for f in k.get('flags', []))
	return dict(driver=driver, variant=label, scale=scale, **k)

import os
TU2 = ['-DC24_TWO_UNITS', os.path.dirname(os.path.abspath(__file__))+'/harness/c24b.cpp']
FCO = ['-fsanitize=float-cast-overflow']
CV = ['-lopencv_core', '-lopencv_imgproc', '-lopencv_imgcodecs', '-lopencv_calib3d', '-lopencv_highgui']

CHECKS = {
	'C01': dict(runs=[run('c01'), run('c01','o3',0.5)], thorough_extra=[run('c01','ld'), run('c01','clang')], rule=R),
	'C02': dict(runs=[run('c02'), run('c02','o3',0.5)], thorough_extra=[run('c02','ld'), run('c02','clang')], rule=R),
	'C03': dict(runs=[run('c03'), run('c03','o3',0.5)], thorough_extra=[run('c03','ld'), run('c03','clang')], rule=R),
	'C04': dict(runs=[run('c04'), run('c04','o3',0.5)], thorough_extra=[run('c04','ld'), run('c04','clang')], rule=R),
	'C05': dict(runs=[run('c05'), run('c05','vrtp',0.3), run('c05','o3',0.5)], thorough_extra=[run('c05','ld'), run('c05','clang')], rule=R),
	'C06': dict(runs=[run('c06', libs=CV), run('c06','o3',0.5, libs=CV)], thorough_extra=[run('c06','clang', libs=CV)], rule=R),
	'C07': dict(runs=[run('c07'), run('c07','o3',0.5)], thorough_extra=[run('c07','ld'), run('c07','clang')], rule=R),
	'C08': dict(runs=[run('c08'), run('c08','o3',0.5)], thorough_extra=[run('c08','ld',0.5), run('c08','clang')], rule=R),
	'C09': dict(runs=[run('c09'), run('c09','o3',0.5)], thorough_extra=[run('c09','ld'), run('c09','clang')], rule=R),
	'C10': dict(runs=[run('c10'), run('c10','o3',0.5)], thorough_extra=[run('c10','ld'), run('c10','clang')], rule=R),
	'C11': dict(runs=[run('c11'), run('c11','o3',0.5)], thorough_extra=[run('c11','ld'), run('c11','clang')], rule=R),
	'C12': dict(runs=[run('c12'), run('c12','o3',0.5)], thorough_extra=[run('c12','ld'), run('c12','clang')], rule=R),
	'C13': dict(runs=[run('c13'), run('c13','o3',0.5)], thorough_extra=[run('c13','ld'), run('c13','clang')], rule=R),
	'C14': dict(runs=[run('c14'), run('c14','o3',0.5)], thorough_extra=[run('c14','ld'), run('c14','clang')], rule=R),
	'C15': dict(runs=[run('c15','vrtp'), run('c15','o3',0.5, flags=['-DMIXED'])], thorough_extra=[run('c15', flags=['-DMIXED']), run('c15','ld'), run('c15','clang')], rule=R),
	'C16': dict(runs=[run('c16'), run('c16','o3',0.5)], thorough_extra=[run('c16','ld'), run('c16','clang')], rule=R),
	'C17': dict(runs=[run('c17'), run('c17','speed'), run('c17','o3',0.5)], thorough_extra=[run('c17','ld'), run('c17','clang')], rule=R),
	'C18': dict(runs=[run('c18'), run('c18','ld',0.5), run('c18','o3',0.5)], thorough_extra=[run('c18','clang'), run('c18','speed')], rule=R),
	'C19': dict(runs=[run('c19','vrtp'), run('c19','vrtp',flags=['-DOTHER_TYPES']), run('c19','prtp'), run('c19','prtp',flags=['-DOTHER_TYPES'])], thorough_extra=[run('c19','o3',flags=['-DHOMOG2D_ENABLE_VRTP']), run('c19','ld',flags=['-DHOMOG2D_ENABLE_PRTP'])], rule=R),
	'C20': dict(runs=[run('c20'), run('c20','o3',0.5), run('c20cv',libs=CV)], thorough_extra=[run('c20','clang'), run('c20','ld')], rule=R),
	'C21': dict(runs=[run('c21',libs=['-ltinyxml2']), run('c21','o3',libs=['-ltinyxml2'])], thorough_extra=[run('c21','speed',libs=['-ltinyxml2'])], rule=R),
	'C22': dict(runs=[run('c22',libs=CV)], thorough_extra=[run('c22','o3',libs=CV)], rule=R),
	'C25': dict(runs=[run('c25'), run('c25','o3')], thorough_extra=[run('c25','clang'), run('c25','ld')], rule=R),
	'C27': dict(runs=[run('c27'), run('c27','o3'), run('c27','asan',0.3,flags=['-DFT=float'])], thorough_extra=[run('c27','ld',flags=['-DFT=long double']), run('c27','clang',flags=['-DHOMOG2D_INUMTYPE=double'])], rule=R),
	'C24': dict(runs=[run('c24',flags=TU2), run('c24','asan',flags=['-DFT=float']), run('c24','o3',flags=TU2)], thorough_extra=[run('c24','ld'), run('c24','clang',flags=TU2), run('c24','bg')], rule=R),
	'C26': dict(runs=[run('c26','tsan',flags=['-DC26_SVG'],libs=['-ltinyxml2']), run('c26','tsan',0.5,flags=['-DHOMOG2D_ENABLE_PRTP'])], thorough_extra=[run('c26','asan',flags=['-DC26_SVG','-pthread'],libs=['-ltinyxml2'])], rule=R),
	'C23': dict(runs=[run('c23',flags=FCO), run('c23','asan',0.5,flags=FCO+['-DFT=float']), run('c23','clang',0.5,flags=FCO)], thorough_extra=[run('c23','ld',flags=FCO), run('c23','bg',flags=FCO), run('c23','prtp',flags=FCO), run('c23','speed',flags=FCO)], rule=R),
}

_G = 'runtime monitoring: seeded random/boundary workloads on the real header under ASan+UBSan, every answer judged online by an independent long-double reference: '
TECHNIQUES = {
	'C01': _G+'incidence and duality of join and meet',
	'C02': _G+'derived lines, points, distances, angles',
	'C03': _G+'segment measures and predicates',
	'C04': _G+'matrix model of histories of homography operations',
	'C05': _G+'images of every primitive under a homography, point by point',
	'C06': _G+'the matrix built from 4 point pairs maps them, for both solvers',
	'C07': _G+'exact (lattice) and dense reference intersections for every ordered pair of types',
	'C08': _G+'membership oracle away from the boundary, exact on lattices',
	'C09': _G+'cell-counting union/intersection of rectangles',
	'C10': _G+'attributes recomputed after every step of a history of mutations and queries (stale-cache monitor)',
	'C11': _G+'canonical form of the point cycle',
	'C12': _G+'constructions judged by their defining properties',
	'C13': _G+'hull containment, extremality, turn direction',
	'C14': _G+'circle constructions, areas, tangents, enclosing circle',
	'C15': _G+'tight bounding boxes of single objects, containers and variants',
	'C16': _G+'brute-force extremal/nearest/farthest',
	'C17': _G+'ellipse conic and parametric form, both build modes',
	'C18': 'runtime monitoring: differential monitor of the same computation over float/double/long double and conversions between them, under ASan+UBSan',
	'C19': 'runtime monitoring: differential monitor of run-time polymorphic dispatch (variant and pointer) against the static call, under ASan+UBSan',
	'C20': 'runtime monitoring: written SVG parsed back with an independent XML reader and compared element by element with a style model of the drawing history; OpenCV drawings judged by a pixel oracle; under ASan+UBSan',
	'C21': 'runtime monitoring: grammar-based and mutated SVG documents fed to the importer under ASan+UBSan, judged by an independent path interpreter',
	'C22': 'runtime monitoring: round trips with OpenCV, Boost.Geometry and user types under ASan+UBSan, value by value',
	'C23': 'runtime monitoring: hostile API-call histories under ASan, UBSan with float-cast-overflow, libstdc++ assertions, a watchdog and an exception-type and global-state monitor',
	'C24': 'runtime monitoring: full observable snapshots around every const operation, copies and threshold changes, in a program of two translation units, under ASan+UBSan',
	'C25': _G+'rigid moves in member and free form over query/move histories',
	'C26': 'runtime monitoring: ThreadSanitizer over threads working on disjoint objects, and digests of their results against the same work done sequentially',
	'C27': 'runtime monitoring: metamorphic monitor comparing the answers of ~480 operations on a scene and on the same scene in another unit or origin, under ASan+UBSan',
}
NOTES = {
	'C26': 'No data race and no divergence on the schedules that occurred; ThreadSanitizer sees races whose two accesses both executed, whatever their order in time.',
	'C23': 'No undefined behaviour that the sanitizers can see (no MemorySanitizer: libstdc++ is not instrumented) on the generated histories.',
	'C27': 'Power-of-two factors 2^-7..2^7 and integer translations up to 64; scenes away from degenerate configurations for translations.',
}
