"""What the analysis knows about numpy / scipy / builtins."""

# functions returning (possibly) a view of / the same array as argument 0
VIEW_FUNCS = {
    "numpy.asarray", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.atleast_3d", "numpy.squeeze",
    "numpy.reshape", "numpy.ravel", "numpy.transpose", "numpy.moveaxis", "numpy.swapaxes",
    "numpy.real", "numpy.imag", "numpy.broadcast_to", "numpy.expand_dims", "numpy.rollaxis",
    "numpy.diagonal", "numpy.ascontiguousarray", "numpy.asfortranarray", "numpy.asarray_chkfinite",
    "numpy.flip", "numpy.fliplr", "numpy.flipud", "numpy.rot90", "numpy.require", "numpy.asanyarray",
    "numpy.lib.stride_tricks.sliding_window_view", "numpy.lib.stride_tricks.as_strided",
    "numpy.array_split", "numpy.split", "numpy.hsplit", "numpy.vsplit", "numpy.real_if_close",
    "numpy.matrix_transpose", "numpy.permute_dims",
}
# methods of arrays that return views
VIEW_METHODS = {"reshape", "squeeze", "ravel", "transpose", "swapaxes", "view", "diagonal", "byteswap"}
VIEW_ATTRS = {"T", "real", "imag", "flat", "mT"}
# functions that modify argument 0
MUT_FUNCS = {
    "numpy.fill_diagonal", "numpy.put", "numpy.place", "numpy.putmask", "numpy.copyto",
    "numpy.put_along_axis", "random.shuffle", "numpy.random.shuffle", "numpy.ndarray.sort",
    "numpy.add.at", "numpy.subtract.at", "numpy.multiply.at", "heapq.heapify", "heapq.heappush",
    "heapq.heappop",
}
MUT_METHODS_ARR = {"sort", "fill", "resize", "put", "itemset", "partition", "setflags", "setfield"}
MUT_METHODS_LIST = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse"}
MUT_METHODS_DICT = {"update", "pop", "popitem", "clear", "setdefault"}
MUT_METHODS_SET = {"add", "discard", "remove", "pop", "clear", "update", "difference_update",
                   "intersection_update", "symmetric_difference_update"}
MUT_METHODS_ANY = {"append", "extend", "insert", "sort", "reverse", "fill", "popitem", "setdefault"}
# keyword arguments that allow overwriting of an input
OVERWRITE_KW = {"overwrite_x", "overwrite_a", "overwrite_b", "overwrite_data", "overwrite_ab", "overwrite_input"}

COPY_FUNCS = {"copy.deepcopy", "copy.copy"}
RANDOM_PREFIX = ("numpy.random.", "random.", "secrets.", "uuid.", "os.urandom")
TIME_FUNCS = {"time.time", "time.perf_counter", "time.time_ns", "datetime.datetime.now", "time.monotonic"}
GLOBAL_CONFIG = {"numpy.seterr", "numpy.seterrcall", "numpy.random.seed", "random.seed", "warnings.filterwarnings",
                 "warnings.simplefilter", "numpy.set_printoptions", "matplotlib.pyplot.style.use",
                 "matplotlib.use", "os.chdir", "os.putenv", "locale.setlocale", "matplotlib.pyplot.switch_backend",
                 "matplotlib.rcParams.update", "seaborn.set_style", "matplotlib.pyplot.rc",
                 "matplotlib.pyplot.rcdefaults", "warnings.resetwarnings", "sys.setrecursionlimit",
                 "numpy.setbufsize", "logging.basicConfig", "logging.disable"}

# numpy functions that return a plain integer (or an array of them) -- fresh anyway
INT_FUNCS = {"len", "int", "numpy.argmax", "numpy.argmin", "round", "numpy.argwhere"}
BUILTINS = {
    "len", "range", "zip", "enumerate", "isinstance", "list", "tuple", "dict", "set", "sorted", "min", "max",
    "abs", "sum", "int", "float", "str", "bool", "print", "open", "hasattr", "getattr", "setattr", "type",
    "super", "map", "filter", "round", "any", "all", "issubclass", "iter", "next", "reversed", "slice",
    "complex", "callable", "repr", "vars", "ValueError", "TypeError", "AssertionError", "NotImplementedError",
    "Exception", "RuntimeError", "KeyError", "IndexError", "AttributeError", "ImportError", "StopIteration",
    "ModuleNotFoundError", "FileNotFoundError", "ZeroDivisionError", "OverflowError", "UserWarning",
    "DeprecationWarning", "RuntimeWarning", "Warning", "object", "property", "staticmethod", "classmethod",
    "NotImplemented", "Ellipsis", "divmod", "pow", "hash", "id", "ord", "chr", "bytes", "bytearray", "frozenset",
    "input", "exit", "quit", "format", "bin", "hex", "delattr", "dir", "globals", "locals", "eval", "exec",
    "memoryview", "__name__", "__file__", "__doc__", "NameError", "LookupError", "ArithmeticError", "OSError", "IOError",
    "BaseException", "EOFError", "KeyboardInterrupt", "FutureWarning", "PendingDeprecationWarning",
    "UnicodeDecodeError", "UnboundLocalError", "PermissionError", "__builtins__", "ascii", "oct", "FloatingPointError",
}
