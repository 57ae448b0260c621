"""The built-in type names: what each one means."""

from .model import INTS

# name -> base type
ALIASES = {}
for base, names in {
    "int8": "INT8 __int8 int8_t,signed char",
    "int16": "SHORT INT16 __int16 int16_t short,signed short",
    "int32": "LONG LONG32 INT INT32 __int32 int32_t int long,signed int,signed long",
    "int64": "LONG64 LONGLONG INT64 __int64 int64_t,long long,signed long long",
    "int128": "INT128 __int128 int128_t",
    "uint8": "BYTE UCHAR UINT8 uint8_t _BYTE u1 __u8 uchar,unsigned __int8",
    "uint16": "WORD USHORT UINT16 uint16_t _WORD u2 __u16 ushort,unsigned short,unsigned __int16",
    "uint32": "DWORD ULONG UINT UINT32 uint32_t _DWORD u4 __u32 uint ulong,unsigned int,unsigned long,unsigned __int32",
    "uint64": "QWORD ULONG64 ULONGLONG UINT64 uint64_t _QWORD u8 __u64,unsigned long long,unsigned __int64",
    "uint128": "OWORD UINT128 uint128_t _OWORD u16,unsigned __int128",
    "char": "CHAR,unsigned char",
    "wchar": "WCHAR wchar_t",
}.items():
    one, *many = names.split(",")
    for n in one.split() + many:
        ALIASES[n] = base
SCALARS = [*INTS, "float16", "float", "double", "char", "wchar", "uleb128", "ileb128", "void"]
SIZES = {**{k: (v[0], v[2]) for k, v in INTS.items()}, "float16": (2, 2), "float": (4, 4), "double": (8, 8), "char": (1, 1), "wchar": (2, 2), "void": (0, 1), "uleb128": (None, 1), "ileb128": (None, 1)}
