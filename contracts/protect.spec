property P04

// the keys the machine keeps for itself lie in the namespace it protects
func arwen.CustomStorageKey(keyType, associatedKey)
  nopanic
  modifies elems(associatedKey)
  ensures[whole] len(result) == len(keyType) + len(associatedKey)
  ensures[distinct] str(result) == old(str(associatedKey)) + keyType || str(result) == keyType + old(str(associatedKey))
case arwen.CustomStorageKey@protected(keyType, associatedKey)
  modifies elems(associatedKey)
  ensures[protected] hasPrefix(keyType, "ARWEN@") ==> hasPrefix(str(result), "ARWEN@")

func contexts.(*runtimeContext).SetReadOnly(c, readOnly)
  nopanic
  requires c != nil
  modifies c.readOnly
  ensures[set] c.readOnly == readOnly

func contexts.(*runtimeContext).ReadOnly(c)
  nopanic pure
  requires c != nil
  ensures[get] result == c.readOnly
