// checked arithmetic (math/math.go)
property P01

func math.AddUint64(a, b)
  nopanic
  ensures[sum] result == min(a + b, 18446744073709551615)

func math.AddUint64WithErr(a, b)
  nopanic
  ensures[exact] result1 == nil ==> result0 == a + b
  ensures[err]   result1 != nil <==> a + b > 18446744073709551615
  ensures[id]    result1 != nil ==> result1 == math.ErrAdditionOverflow

func math.AddInt64(a, b)
  nopanic
  ensures[exact] inI64(a + b) ==> result == a + b
  ensures[sat]   a + b > 9223372036854775807 ==> result == 9223372036854775807
  ensures[satlow] a + b < -9223372036854775808 ==> result == -9223372036854775808

func math.SubUint64(a, b)
  nopanic
  ensures[diff] result == max(a - b, 0)

func math.MulUint64(a, b)
  nopanic
  ensures[prod] result == min(a * b, 18446744073709551615)

func math.MulUint64WithErr(a, b)
  nopanic
  ensures[exact] result1 == nil ==> result0 == a * b
  ensures[err]   result1 != nil <==> a * b > 18446744073709551615

func math.AddInt32(a, b)
  nopanic
  ensures[exact] inI32(a + b) ==> result == a + b
  ensures[sat]   a + b > 2147483647 ==> result == 2147483647
  ensures[satlow] a + b < -2147483648 ==> result == -2147483648

func math.AddInt32WithError(a, b)
  nopanic
  ensures[exact] result1 == nil ==> result0 == a + b
  ensures[err]   result1 != nil <==> !inI32(a + b)

func math.SubInt(a, b)
  nopanic
  ensures[exact] inI64(a - b) ==> result == a - b
  ensures[satlow] a - b < -9223372036854775808 ==> result == -9223372036854775808
  ensures[sat] a - b > 9223372036854775807 ==> result == 9223372036854775807
