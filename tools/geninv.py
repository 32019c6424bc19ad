"""Authoring aid (never run by a check): freeze the inventory of functions and vocabulary of the reviewed tree."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa.repo import Repo
from sa.graph import Builder
from sa.compare import observables, symbols

r = Repo()
known = sorted(f.qual for f in r.all_funcs())
ks = set(known)
voc = set()
for f in list(r.all_funcs()):
    s = Builder(r, ks).analyse(f)
    o = observables(s)
    voc |= symbols([v[0] for v in o.values()])
voc = {v for v in voc if not v.startswith('op:')}
# library vocabulary a maintainer may reach for; its meaning is fixed and it has no effect on its arguments
EXTRA = '''abs all any bool dict enumerate float frozenset int isinstance len list map max min next open print range repr reversed round
set sorted str sum tuple zip format divmod pow'''.split()
NP = '''abs absolute all any append arange array asarray atleast_1d atleast_2d clip concatenate copy cumsum diag diagonal diff dot empty empty_like
exp eye flatnonzero full full_like hstack identity insert isclose isfinite isin isinf isnan linspace log logical_and logical_not logical_or
max maximum mean min minimum multiply nan_to_num nonzero ones ones_like outer prod ravel repeat reshape searchsorted sort sqrt square
std stack sum tile transpose unique vstack where zeros zeros_like amin amax nan inf linalg.inv linalg.cholesky linalg.solve'''.split()
ME = '''keys values items get append extend add update copy strip split rstrip lstrip join startswith endswith replace format lower upper
sum mean min max any all astype reshape tolist flatten ravel transpose cumsum insert pop remove index count sort setdefault isdigit
dot clip argmax argmin round isna dropna read readline readlines write encode decode'''.split()
# functions that lose, round, shuffle or search from the other end: nothing here can be restated with them
LOSSY = '''float32 float16 half single rint around round_ trunc fix roll median nanmax nanmin nanmean nansum random.rand random.randn random.normal
random.uniform random.shuffle random.choice random.random random.seed random.lognormal random.randint'''.split()
voc |= {'lib:numpy.' + x for x in LOSSY} | {p + x for x in ('rindex', 'rfind', 'capitalize', 'title', 'swapcase') for p in ('m:', 'attr:')}
voc |= {'lib:os.path.' + x for x in ('exists', 'isdir', 'getmtime', 'getsize', 'basename')}
voc |= {'lib:builtins.' + x for x in EXTRA} | {'lib:numpy.' + x for x in NP} | {'m:' + x for x in ME} | {'attr:' + x for x in ME}
# distributions, functions and kinds of object that are nowhere equal to what the package uses
OTHER = '''scipy.stats.lognorm scipy.stats.lognorm.ppf scipy.stats.expon scipy.stats.beta scipy.stats.gamma scipy.stats.t scipy.stats.laplace
scipy.stats.norm.pdf scipy.stats.norm.cdf scipy.stats.norm.sf scipy.stats.norm.isf scipy.stats.uniform.cdf scipy.stats.uniform.pdf numpy.var numpy.nanstd
numpy.nanmedian numpy.cumprod numpy.triu numpy.tril numpy.sin numpy.cos numpy.tan numpy.sinh numpy.cosh numpy.tanh numpy.cbrt numpy.log2 numpy.log10
numpy.ceil math.ceil math.floor numpy.sign numpy.linalg.pinv scipy.linalg.pinv numpy.linalg.det numpy.linalg.eigvals numpy.linalg.qr numpy.linalg.svd
collections.abc.Sequence collections.abc.Sized collections.abc.Container collections.abc.Hashable collections.abc.Iterator collections.abc.Set
numbers.Number numbers.Complex numbers.Rational math.gamma math.lgamma numpy.random.exponential numpy.random.poisson numpy.random.triangular
numpy.random.binomial re.search re.fullmatch numpy.gradient numpy.fmax numpy.fmin'''.split()
voc |= {'lib:' + x for x in OTHER}
voc |= {'fn:' + q for q in known}
with open(os.path.join(ROOT, 'inventory.json'), 'w') as f:
    json.dump({'functions': known, 'vocabulary': sorted(voc)}, f, indent=0)
print(len(known), len(voc))
