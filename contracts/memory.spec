property P08

func arwen.GuardedGetBytesSlice(data, offset, length)
  nopanic
  ensures[ok] result1 == nil <==> 0 <= offset && 0 <= length && offset + length <= len(data)
  ensures[bytes] result1 == nil ==> len(result0) == length && str(result0) == data[offset:offset+length]
  ensures[err] result1 != nil ==> result0 == nil
  assumes len(data) < 2147483647

func arwen.PadBytesLeft(data, size)
  nopanic
  ensures[nil] data == nil ==> result == nil
  ensures[empty] data != nil && len(data) == 0 ==> result != nil && len(result) == 0
  ensures[pad] len(data) > 0 ==> len(result) == max(size, len(data))
  ensures[bytes] len(data) > 0 ==> str(result) == zeros(len(result) - len(data)) + data
  assumes size <= 1048576

func arwen.InverseBytes(data)
  nopanic
  ensures[len] len(result) == len(data) && fresh(result)
  ensures[rev] forall i int :: 0 <= i && i < len(data) ==> result[i] == data[len(data) - 1 - i]
  inv {b []byte} forall j int :: 0 <= j && j < iter ==> b[len(data) - 1 - j] == data[j]

func arwen.GuardedMakeByteSlice2D(length)
  nopanic
  ensures[neg] length < 0 <==> result1 != nil
  ensures[len] result1 == nil ==> len(result0) == length && fresh(result0) && forall i int :: 0 <= i && i < length ==> result0[i] == nil

def ctxMem(c) = typed(memOf(ref(c.instance)), "wasmer.MemoryHandler")
def clampEnd(o, n, l) = min(o + n, l)

func contexts.(*runtimeContext).MemLoad(c, offset, length)
  nopanic
  requires c != nil && c.instance != nil
  let m = ctxMem(c)
  ensures[zero] length == 0 ==> result1 == nil && len(result0) == 0
  ensures[ok] length != 0 ==> (result1 == nil <==> 0 <= offset && offset <= len(mem(m)) && 0 < length)
  ensures[fail] result1 != nil ==> result0 == nil
  ensures[len] result1 == nil ==> len(result0) == length && fresh(result0)
  ensures[bytes] result1 == nil && length != 0 ==> str(result0) == mem(m)[offset:clampEnd(offset, length, len(mem(m)))] + zeros(length - (clampEnd(offset, length, len(mem(m))) - offset))
  ensures[at] result1 == nil && length != 0 ==> forall i int :: 0 <= i && i < length ==> result0[i] == memRead(str(mem(m)), offset, length)[i]
  ensures[private] result1 == nil && length != 0 ==> base(result0) != base(mem(m))
  cover length > 0 && offset + length > len(mem(m)) && result1 == nil

func contexts.(*runtimeContext).MemStore(c, offset, data)
  nopanic
  requires c != nil && c.instance != nil
  assumes len(data) <= 2147483647
  let m = ctxMem(c)
  let old0 = str(mem(m))
  let d = str(data)
  modifies $memLen, $memBase, elems(mem(m))
  ensures[empty] len(data) == 0 ==> result == nil && same($memLen, $memBase)
  ensures[base] base(mem(m)) == old(base(mem(m))) || fresh(mem(m))
  ensures[only] forall q int :: q != ref(m) ==> $memLen[q] == old($memLen)[q] && $memBase[q] == old($memBase)[q]
  ensures[bounds] result == nil && len(d) > 0 ==> 0 <= offset && offset + len(d) <= len(mem(m))
  ensures[stored] result == nil && len(d) > 0 ==> mem(m)[offset:offset+len(d)] == d
  ensures[before] result == nil && len(d) > 0 ==> mem(m)[0:min(offset, len(old0))] == old0[0:min(offset, len(old0))]
  ensures[after] result == nil && len(d) > 0 && offset + len(d) <= len(old0) ==> mem(m)[offset+len(d):len(old0)] == old0[offset+len(d):len(old0)]
  ensures[refused] result != nil ==> mem(m)[0:len(old0)] == old0
  ensures[growth] len(mem(m)) <= len(old0) + 65536
  ensures[fits] 0 <= offset && offset + len(d) <= len(old0) ==> result == nil && len(mem(m)) == len(old0)

// what MemLoad reads: the bytes present at the address, then zeros
def memRead(mm, o, n) = n == 0 ? mm[0:0] : mm[o:clampEnd(o, n, len(mm))] + zeros(n - (clampEnd(o, n, len(mm)) - o))

func contexts.(*runtimeContext).MemLoadMultiple(c, offset, lengths)
  nopanic
  requires c != nil && c.instance != nil
  let m = ctxMem(c)
  ensures[fail] result1 != nil ==> result0 == nil
  ensures[len] result1 == nil ==> len(result0) == len(lengths)
  ensures[lens] result1 == nil ==> forall i int :: 0 <= i && i < len(lengths) ==> len(result0[i]) == lengths[i]
  ensures[chain] result1 == nil ==> forall i int :: 0 <= i && i < len(lengths) ==> str(result0[i]) == memRead(str(mem(m)), offset + sumTo(lengths, i), lengths[i])
  inv {r [][]byte} forall j int :: 0 <= j && j < iter ==> len(r[j]) == lengths[j]
  inv {o int32} o == offset + sumTo(lengths, iter) || o < 0
  inv {r [][]byte} forall j int :: 0 <= j && j < iter ==> str(r[j]) == memRead(str(mem(ctxMem(c))), offset + sumTo(lengths, j), lengths[j])
