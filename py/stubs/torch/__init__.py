"""The little of torch's interface which asta and the checks use (torch is not installed):
tensors with a shape, a dtype and a rank, nothing to compute with."""


class dtype:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "torch." + self.name


class Size(tuple):
    def __repr__(self):
        return f"torch.Size({list(self)})"


class Tensor:
    def __init__(self, shape, dtype_):
        self.shape = Size(shape)
        self.dtype = dtype_
        self.ndim = len(self.shape)

    def size(self):
        return self.shape

    def __repr__(self):
        return f"tensor(..., size={tuple(self.shape)}, dtype={self.dtype})"

    def __eq__(self, other):
        raise RuntimeError("the truth of an elementwise comparison is ambiguous")

    __hash__ = object.__hash__


class nn:
    """ torch.nn """

    class Parameter(Tensor):
        """ Torch tensors of a class of their own. """


NAMES = ["float16", "float32", "float64", "bfloat16", "int8", "int16", "int32", "int64", "uint8", "bool", "complex64",
         "complex128"]
for _n in NAMES:
    globals()[_n] = dtype(_n)
float, half, double, int, long = float32, float16, float64, int32, int64  # noqa: F821


def zeros(shape, dtype=None):
    return Tensor(shape, dtype or float32)  # noqa: F821
