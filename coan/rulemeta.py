ASSUMPTIONS = [
    "torch operators are pure functions of their arguments except the documented in-place/view operators modelled in coan/torchmodel.py",
    "Python semantics as modelled in coan/interp.py (no monkey patching of the analysed package at run time, single thread)",
    "user supplied callables and children are opaque: they obey the CoModule interface and do not reach back into the analysed modules",
    "loops over symbolic bounds are unrolled at most 3 times; paths cut by the bound are not judged",
]
