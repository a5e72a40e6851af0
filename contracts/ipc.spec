property P15

// ---- a pipe is the bytes written to it and the bytes still to be read from it (assumed)
ghostvar $pipe (Array Int Str)
ghostvar $inp (Array Int Str)
ghost then(Str, Str) Str
trusted os.(*File).Write(f, b)
  requires f != nil
  modifies $pipe
  ensures forall g int :: g != ref(f) ==> $pipe[g] == old($pipe)[g]
  ensures result1 == nil ==> result0 == len(b) && $pipe == store(old($pipe), ref(f), then(old($pipe)[ref(f)], str(b)))
// the first n bytes of s, and the rest
ghost first(Str, Int) Str
ghost rest(Str, Int) Str
trusted io.ReadFull(r, b)
  modifies $inp, elems(b)
  ensures forall g int :: g != ref(r.(*os.File)) ==> $inp[g] == old($inp)[g]
  ensures result1 == nil ==> result0 == len(b) && len(old($inp)[ref(r.(*os.File))]) >= len(b) && len(rest(old($inp)[ref(r.(*os.File))], len(b))) == len(old($inp)[ref(r.(*os.File))]) - len(b) && str(b) == first(old($inp)[ref(r.(*os.File))], len(b))
  ensures result1 == nil ==> $inp == store(old($inp), ref(r.(*os.File)), rest(old($inp)[ref(r.(*os.File))], len(b)))
  ensures result1 == nil ==> forall i int :: 0 <= i && i < len(b) ==> b[i] == old($inp)[ref(r.(*os.File))][i]
// a single read may yield fewer bytes than asked for
trusted os.(*File).Read(f, b)
  requires f != nil
  modifies $inp, elems(b)
  ensures forall g int :: g != ref(f) ==> $inp[g] == old($inp)[g]
  ensures 0 <= result0 && result0 <= len(b)
  ensures result1 == nil && len(b) > 0 ==> result0 > 0
trusted os.(*File).SetDeadline(f, t)
  pure
trusted time.Time.Add(t, d)
  pure
trusted time.Now()
  pure

// ---- a message on the pipe is its dialogue number, kind, error text and payload; marshalling keeps all of them (assumed)
ghostvar $nonce (Array Int Int)
ghostvar $kind (Array Int Int)
ghostvar $body (Array Int Int)
ghost wire(Int, Int, Int) Str
ghost wireNonce(Str) Int
ghost wireKind(Str) Int
ghost wireBody(Str, Int) Int
// the message last given to the marshaller, and the message last created for what arrives
ghostvar $sent Int
ghostvar $last Int
iface marshaling.Marshalizer.Marshal(m, v)
  modifies $sent
  ensures $sent == ref(v)
  ensures result1 == nil ==> str(result0) == wire($nonce[ref(v)], $kind[ref(v)], $body[ref(v)]) && len(result0) < 4294967296
iface marshaling.Marshalizer.Unmarshal(m, v, b)
  modifies $nonce, $kind, $body
  ensures $nonce == store(old($nonce), ref(v), wireNonce(str(b))) && $body == store(old($body), ref(v), wireBody(str(b), old($kind)[ref(v)])) && $kind == store(old($kind), ref(v), wireKind(str(b)))
iface common.MessageHandler.GetNonce(m)
  pure
  returns $nonce[ref(m)]
iface common.MessageHandler.SetNonce(m, n)
  modifies $nonce
  ensures $nonce == store(old($nonce), ref(m), n)
iface common.MessageHandler.GetKind(m)
  pure
  returns $kind[ref(m)]
iface common.MessageHandler.SetKind(m, k)
  modifies $kind
  ensures $kind == store(old($kind), ref(m), k)
ghost errText(Int) Str
iface common.MessageHandler.GetError(m)
  pure
  ensures result == nil <==> len(errText($body[ref(m)])) == 0
  ensures result != nil ==> errmsg(ref(result)) == errText($body[ref(m)])
iface common.MessageHandler.DebugString(m)
  pure
iface common.MessageHandler.GetKindName(m)
  pure

// ---- framing
def u32(n) = chr(n % 256) + chr((n / 256) % 256) + chr((n / 65536) % 256) + chr(n / 16777216)
ghost header(Int, Int) Str
axiom forall n int, k int :: 0 <= n && n < 4294967296 && 0 <= k && k < 4294967296 ==> header(n, k) == u32(n) + u32(k)
def at32(s, i) = s[i] + 256 * s[i + 1] + 65536 * s[i + 2] + 16777216 * s[i + 3]

func common.(*Sender).sendMessageLengthAndKind(s, length, kind)
  nopanic
  requires s != nil && s.writer != nil && 0 <= length && length < 4294967296
  modifies $pipe
  let w = ref(s.writer)
  ensures[other] forall g int :: g != w ==> $pipe[g] == old($pipe)[g]
  ensures[header] result == nil ==> $pipe[w] == then(old($pipe)[w], header(length, kind))
func common.(*Sender).Send(s, message)
  nopanic
  requires s != nil && s.writer != nil && s.marshalizer != nil && message != nil
  modifies $pipe, $sent
  let w = ref(s.writer)
  let b = wire($nonce[ref(message)], $kind[ref(message)], $body[ref(message)])
  ensures[other] forall g int :: g != w ==> $pipe[g] == old($pipe)[g]
  ensures[framed] result1 == nil ==> $pipe[w] == then(then(old($pipe)[w], header(len(b), $kind[ref(message)])), b)
  ensures[length] result1 == nil ==> result0 == len(b)
  ensures[sent] $sent == ref(message)

func common.(*Receiver).receiveMessageLengthAndKind(r)
  nopanic
  requires r != nil && r.reader != nil
  modifies $inp
  let f = ref(r.reader)
  let s = $inp[f]
  ensures[other] forall g int :: g != f ==> $inp[g] == old($inp)[g]
  ensures[header] result2 == nil ==> len(s) >= 8 && result0 == at32(s, 0) && result1 == at32(s, 4)
  ensures[consumed] result2 == nil ==> $inp[f] == rest(s, 8) && len(rest(s, 8)) == len(s) - 8

// the table of constructors is filled by the package's initialisation (assumed: an entry for every kind, yielding a new message)
trusted common.CreateMessage(kind)
  modifies $nonce, $kind, $body, $last
  ensures result != nil && fresh(result) && $last == ref(result)
  ensures $kind[ref(result)] == (kind < 73 ? kind : 72)
  ensures forall m int :: m != ref(result) ==> $nonce[m] == old($nonce)[m] && $kind[m] == old($kind)[m] && $body[m] == old($body)[m]

pred others(o) = forall m int :: m != ref(o) ==> $nonce[m] == old($nonce)[m] && $kind[m] == old($kind)[m] && $body[m] == old($body)[m]
pred decoded(o, b, k) = $nonce[ref(o)] == wireNonce(b) && $kind[ref(o)] == wireKind(b) && $body[ref(o)] == wireBody(b, k < 73 ? k : 72)
func common.(*Receiver).readMessage(r, kind, length)
  nopanic
  requires r != nil && r.reader != nil && r.marshalizer != nil && 0 <= length && length < 4294967296
  modifies $inp, $nonce, $kind, $body, $last
  let f = ref(r.reader)
  let s = $inp[f]
  ensures[other] forall g int :: g != f ==> $inp[g] == old($inp)[g]
  ensures[message] result1 == nil ==> result0 != nil && fresh(result0) && others(result0)
  ensures[none] result1 != nil ==> result0 == nil
  ensures[payload] result1 == nil ==> len(s) >= length && decoded(result0, first(s, length), kind)
  ensures[consumed] result1 == nil ==> $inp[f] == rest(s, length)
  ensures[last] result1 == nil ==> $last == ref(result0)
func common.(*Receiver).Receive(r, timeout)
  nopanic
  requires r != nil && r.reader != nil && r.marshalizer != nil
  modifies $inp, $nonce, $kind, $body, $last
  let f = ref(r.reader)
  let s = $inp[f]
  let n = at32(s, 0)
  ensures[other] forall g int :: g != f ==> $inp[g] == old($inp)[g]
  ensures[message] result2 == nil ==> result0 != nil && fresh(result0) && others(result0)
  ensures[none] result2 != nil ==> result0 == nil && result1 == 0
  ensures[payload] result2 == nil ==> len(s) >= 8 + n && result1 == n && decoded(result0, first(rest(s, 8), n), at32(s, 4))
  ensures[consumed] result2 == nil ==> $inp[f] == rest(rest(s, 8), n)
  ensures[last] result2 == nil ==> $last == ref(result0)

// ---- the dialogue number
def next(n) = (n + 1) % 4294967296
func common.(*Messenger).Send(m, message)
  nopanic
  requires m != nil && m.sender != nil && m.sender.writer != nil && m.sender.marshalizer != nil && message != nil
  modifies m.Nonce, $pipe, $nonce, $sent
  let w = ref(m.sender.writer)
  let c = next(m.Nonce)
  let b = wire(c, $kind[ref(message)], $body[ref(message)])
  ensures[nonce] m.Nonce == c && $nonce == store(old($nonce), ref(message), c)
  ensures[other] forall g int :: g != w ==> $pipe[g] == old($pipe)[g]
  ensures[framed] result == nil ==> $pipe[w] == then(then(old($pipe)[w], header(len(b), $kind[ref(message)])), b)
  ensures[sent] $sent == ref(message)
func common.(*Messenger).Receive(m, timeout)
  nopanic
  requires m != nil && m.receiver != nil && m.receiver.reader != nil && m.receiver.marshalizer != nil
  modifies m.Nonce, $inp, $nonce, $kind, $body, $last
  let f = ref(m.receiver.reader)
  let s = $inp[f]
  let n = at32(s, 0)
  let c = m.Nonce
  ensures[other] forall g int :: g != f ==> $inp[g] == old($inp)[g]
  ensures[none] result1 != nil ==> result0 == nil && m.Nonce == c
  ensures[message] result1 == nil ==> result0 != nil && fresh(result0) && others(result0)
  ensures[follows] result1 == nil ==> $nonce[ref(result0)] == next(c) && m.Nonce == next(c)
  ensures[payload] result1 == nil ==> len(s) >= 8 + n && decoded(result0, first(rest(s, 8), n), at32(s, 4))
  ensures[last] result1 == nil ==> $last == ref(result0)
func common.(*Messenger).ResetDialogue(m)
  nopanic
  requires m != nil
  modifies m.Nonce
  ensures[zero] m.Nonce == 0
func common.(*Messenger).Reset(m)
  nopanic
  requires m != nil
  modifies m.Nonce
  ensures[zero] m.Nonce == 0

// ---- messages
func common.(*Message).GetNonce(m)
  nopanic pure
  requires m != nil
  returns m.DialogueNonce
func common.(*Message).SetNonce(m, n)
  nopanic
  requires m != nil
  modifies m.DialogueNonce
  ensures[set] m.DialogueNonce == n
func common.(*Message).GetKind(m)
  nopanic pure
  requires m != nil
  returns m.Kind
func common.(*Message).SetKind(m, k)
  nopanic
  requires m != nil
  modifies m.Kind
  ensures[set] m.Kind == k
func common.(*Message).SetError(m, err)
  nopanic
  requires m != nil
  modifies m.ErrorMessage
  ensures[set] m.ErrorMessage == (err != nil ? errmsg(ref(err)) : old(m.ErrorMessage))
func common.(*Message).GetError(m)
  nopanic pure
  requires m != nil
  ensures[nil] result == nil <==> len(m.ErrorMessage) == 0
  ensures[text] result != nil ==> errmsg(ref(result)) == m.ErrorMessage
func common.NewUndefinedMessage()
  nopanic
  ensures[new] result != nil && fresh(result) && result.Kind == common.UndefinedRequestOrResponse && result.DialogueNonce == 4294967295 && result.ErrorMessage == ""

func common.IsHookCall(m)
  nopanic pure
  requires m != nil
  let k = $kind[ref(m)]
  returns common.BlockchainNewAddressRequest <= k && k <= common.BlockchainGetCompiledCodeResponse || common.BlockchainClearCompiledCodesRequest <= k && k <= common.BlockchainProcessBuiltInFunctionResponse
func common.IsStopRequest(m)
  nopanic pure
  requires m != nil
  returns $kind[ref(m)] == common.Stop
func common.IsVersionResponse(m)
  nopanic pure
  requires m != nil
  returns $kind[ref(m)] == common.VersionResponse
func common.IsContractResponse(m)
  nopanic pure
  requires m != nil
  returns $kind[ref(m)] == common.ContractResponse
func common.IsGasScheduleChangeResponse(m)
  nopanic pure
  requires m != nil
  returns $kind[ref(m)] == common.GasScheduleChangeResponse
func common.IsDiagnose(m)
  nopanic pure
  requires m != nil
  returns $kind[ref(m)] == common.DiagnoseWaitRequest || $kind[ref(m)] == common.DiagnoseWaitResponse

// ---- the output on the wire
func common.NewSerializableMapStringBytes(data)
  nopanic
  ensures[new] result != nil && fresh(result) && len(result.Keys) == len(data) && len(result.Values) == len(data)
  ensures[entries] forall i int :: 0 <= i && i < len(result.Keys) ==> has(data, str(result.Keys[i])) && result.Values[i] == data[str(result.Keys[i])]
  ensures[distinct] forall i int, j int :: 0 <= i && i < j && j < len(result.Keys) ==> str(result.Keys[i]) != str(result.Keys[j])
  inv {s *common.SerializableMapStringBytes} s != nil && fresh(s) && len(s.Keys) == iter && len(s.Values) == iter
  inv {s *common.SerializableMapStringBytes} fresh(s.Keys) && fresh(s.Values) && base(s.Keys) != base(s.Values)
  inv {s *common.SerializableMapStringBytes} forall i int :: 0 <= i && i < iter ==> fresh(s.Keys[i])
  inv {s *common.SerializableMapStringBytes} forall i int :: 0 <= i && i < iter ==> visited(str(s.Keys[i])) && s.Values[i] == data[str(s.Keys[i])]
  inv {s *common.SerializableMapStringBytes} forall i int :: 0 <= i && i < iter ==> pos(str(s.Keys[i])) == i
func common.(*SerializableMapStringBytes).ConvertToMap(s)
  nopanic
  requires s != nil && len(s.Keys) == len(s.Values)
  requires forall i int, j int :: 0 <= i && i < j && j < len(s.Keys) ==> str(s.Keys[i]) != str(s.Keys[j])
  ensures[new] result != nil && fresh(result) && len(result) == len(s.Keys)
  ensures[entries] forall i int :: 0 <= i && i < len(s.Keys) ==> has(result, str(s.Keys[i])) && result[str(s.Keys[i])] == s.Values[i]
  inv {i int, m map[string][]byte} 0 <= i && i <= len(s.Keys) && fresh(m) && len(m) == i
  inv {i int, m map[string][]byte} forall j int :: 0 <= j && j < i ==> has(m, str(s.Keys[j])) && m[str(s.Keys[j])] == s.Values[j]
  inv {i int, m map[string][]byte} forall j int :: i <= j && j < len(s.Keys) ==> !has(m, str(s.Keys[j]))

pred wireTransfer(t, u) = t.Value == u.Value && t.Data == u.Data && t.GasLimit == u.GasLimit && t.GasLocked == u.GasLocked && t.CallType == u.CallType && t.SenderAddress == u.SenderAddress
pred wireAccount(a, b) = a.Address == b.Address && a.Nonce == b.Nonce && a.Balance == b.Balance && a.BalanceDelta == b.BalanceDelta && a.Code == b.Code && a.CodeMetadata == b.CodeMetadata && a.GasUsed == b.GasUsed && a.CodeDeployerAddress == b.CodeDeployerAddress
// every update is kept under its own key, as the machine's outputs have them
pred keyedOk(m) = forall k string :: has(m, k) ==> m[k] != nil && str(m[k].Offset) == k
pred listOk(l) = (forall i int :: 0 <= i && i < len(l) ==> l[i] != nil) && forall i int, j int :: 0 <= i && i < j && j < len(l) ==> str(l[i].Offset) != str(l[j].Offset)
// the same, with the place of each key named
ghost keyPos(Int, Str) Int
pred placed(l) = forall i int :: 0 <= i && i < len(l) ==> l[i] != nil && keyPos(base(l), str(l[i].Offset)) == i
func common.NewSerializableOutputAccount(acc)
  nopanic
  requires acc != nil && keyedOk(acc.StorageUpdates)
  ensures[new] result != nil && fresh(result)
  ensures[own] fresh(result.Transfers) && fresh(result.StorageUpdates)
  ensures[fields] wireAccount(result, acc)
  ensures[ntransfers] len(result.Transfers) == len(acc.OutputTransfers)
  ensures[transfers] forall i int :: 0 <= i && i < len(acc.OutputTransfers) ==> wireTransfer(result.Transfers[i], acc.OutputTransfers[i])
  ensures[nupdates] len(result.StorageUpdates) == len(acc.StorageUpdates)
  ensures[updates] forall i int :: 0 <= i && i < len(result.StorageUpdates) ==> has(acc.StorageUpdates, str(result.StorageUpdates[i].Offset)) && acc.StorageUpdates[str(result.StorageUpdates[i].Offset)] == result.StorageUpdates[i]
  ensures[distinct] listOk(result.StorageUpdates)
  inv {a *common.SerializableOutputAccount} a != nil && fresh(a) && wireAccount(a, acc)
  inv {a *common.SerializableOutputAccount} fresh(a.Transfers)
  inv {a *common.SerializableOutputAccount} len(a.Transfers) == len(acc.OutputTransfers)
  inv {a *common.SerializableOutputAccount} len(a.Transfers) == iter
  inv {a *common.SerializableOutputAccount} len(a.StorageUpdates) == 0
  inv {a *common.SerializableOutputAccount} fresh(a.StorageUpdates)
  inv {a *common.SerializableOutputAccount} forall j int :: 0 <= j && j < iter ==> wireTransfer(a.Transfers[j], acc.OutputTransfers[j])
  inv {a *common.SerializableOutputAccount} forall j int :: 0 <= j && j < len(acc.OutputTransfers) ==> wireTransfer(a.Transfers[j], acc.OutputTransfers[j])
  inv {a *common.SerializableOutputAccount} len(a.StorageUpdates) == iter
  inv {a *common.SerializableOutputAccount} forall j int :: 0 <= j && j < iter ==> a.StorageUpdates[j] != nil && visited(str(a.StorageUpdates[j].Offset)) && acc.StorageUpdates[str(a.StorageUpdates[j].Offset)] == a.StorageUpdates[j]
  inv {a *common.SerializableOutputAccount} forall i int :: 0 <= i && i < iter ==> pos(str(a.StorageUpdates[i].Offset)) == i
func common.(*SerializableOutputAccount).ConvertToOutputAccount(a)
  nopanic
  requires a != nil && placed(a.StorageUpdates)
  ensures[new] result != nil && fresh(result)
  ensures[own] fresh(result.OutputTransfers) && fresh(result.StorageUpdates)
  ensures[fields] wireAccount(result, a)
  ensures[ntransfers] len(result.OutputTransfers) == len(a.Transfers)
  ensures[transfers] forall i int :: 0 <= i && i < len(a.Transfers) ==> wireTransfer(result.OutputTransfers[i], a.Transfers[i])
  ensures[nupdates] result.StorageUpdates != nil && len(result.StorageUpdates) == len(a.StorageUpdates)
  ensures[updates] forall i int :: 0 <= i && i < len(a.StorageUpdates) ==> has(result.StorageUpdates, str(a.StorageUpdates[i].Offset)) && result.StorageUpdates[str(a.StorageUpdates[i].Offset)] == a.StorageUpdates[i]
  inv {updatesMap map[string]*vmcommon.StorageUpdate} fresh(updatesMap) && len(updatesMap) == iter
  inv {updatesMap map[string]*vmcommon.StorageUpdate} forall j int :: 0 <= j && j < iter ==> has(updatesMap, str(a.StorageUpdates[j].Offset)) && updatesMap[str(a.StorageUpdates[j].Offset)] == a.StorageUpdates[j]
  inv {updatesMap map[string]*vmcommon.StorageUpdate} forall j int :: iter <= j && j < len(a.StorageUpdates) ==> !has(updatesMap, str(a.StorageUpdates[j].Offset))
  inv {outAcc *vmcommon.OutputAccount} outAcc != nil && fresh(outAcc) && wireAccount(outAcc, a)
  inv {outAcc *vmcommon.OutputAccount} fresh(outAcc.OutputTransfers)
  inv {outAcc *vmcommon.OutputAccount} len(outAcc.OutputTransfers) == len(a.Transfers)
  inv {outAcc *vmcommon.OutputAccount} len(outAcc.OutputTransfers) == iter
  inv {outAcc *vmcommon.OutputAccount} outAcc.StorageUpdates == pre(outAcc.StorageUpdates)
  inv {outAcc *vmcommon.OutputAccount} forall j int :: 0 <= j && j < iter ==> wireTransfer(outAcc.OutputTransfers[j], a.Transfers[j])

// ---- whole outputs: an account list against the account map
pred wireOutput(o, v) = o.ReturnData == v.ReturnData && o.ReturnCode == v.ReturnCode && o.ReturnMessage == v.ReturnMessage && o.GasRemaining == v.GasRemaining && o.GasRefund == v.GasRefund && o.DeletedAccounts == v.DeletedAccounts && o.TouchedAccounts == v.TouchedAccounts && o.Logs == v.Logs
func common.NewSerializableVMOutput(v)
  nopanic
  requires v != nil ==> accsOk(v.OutputAccounts) && forall k string :: has(v.OutputAccounts, k) ==> keyedOk(v.OutputAccounts[k].StorageUpdates)
  let A = v.OutputAccounts
  ensures[new] result != nil && fresh(result)
  ensures[none] v == nil ==> len(result.CorrectedOutputAccounts) == 0 && len(result.ReturnData) == 0 && result.GasRemaining == 0 && result.GasRefund == nil && len(result.Logs) == 0
  ensures[fields] v != nil ==> wireOutput(result, v)
  ensures[naccounts] v != nil ==> len(result.CorrectedOutputAccounts) == len(A)
  ensures[accounts] v != nil ==> forall i int :: 0 <= i && i < len(A) ==> result.CorrectedOutputAccounts[i] != nil && has(A, str(result.CorrectedOutputAccounts[i].Address)) && wireAccount(result.CorrectedOutputAccounts[i], A[str(result.CorrectedOutputAccounts[i].Address)])
  ensures[distinct] v != nil ==> forall i int, j int :: 0 <= i && i < j && j < len(A) ==> str(result.CorrectedOutputAccounts[i].Address) != str(result.CorrectedOutputAccounts[j].Address)
  ensures[ntransfers] v != nil ==> forall i int :: 0 <= i && i < len(A) ==> len(result.CorrectedOutputAccounts[i].Transfers) == len(A[str(result.CorrectedOutputAccounts[i].Address)].OutputTransfers)
  ensures[nupdates] v != nil ==> forall i int :: 0 <= i && i < len(A) ==> len(result.CorrectedOutputAccounts[i].StorageUpdates) == len(A[str(result.CorrectedOutputAccounts[i].Address)].StorageUpdates)
  inv {o *common.SerializableVMOutput} o != nil && fresh(o) && wireOutput(o, v) && fresh(o.CorrectedOutputAccounts) && len(o.CorrectedOutputAccounts) == iter
  inv {o *common.SerializableVMOutput} forall i int :: 0 <= i && i < iter ==> fresh(o.CorrectedOutputAccounts[i].Transfers) && fresh(o.CorrectedOutputAccounts[i].StorageUpdates)
  inv {o *common.SerializableVMOutput} forall i int :: 0 <= i && i < iter ==> o.CorrectedOutputAccounts[i] != nil && fresh(o.CorrectedOutputAccounts[i]) && visited(str(o.CorrectedOutputAccounts[i].Address)) && pos(str(o.CorrectedOutputAccounts[i].Address)) == i
  inv {o *common.SerializableVMOutput} forall i int :: 0 <= i && i < iter ==> wireAccount(o.CorrectedOutputAccounts[i], A[str(o.CorrectedOutputAccounts[i].Address)])
  inv {o *common.SerializableVMOutput} forall i int :: 0 <= i && i < iter ==> len(o.CorrectedOutputAccounts[i].Transfers) == len(A[str(o.CorrectedOutputAccounts[i].Address)].OutputTransfers)
  inv {o *common.SerializableVMOutput} forall i int :: 0 <= i && i < iter ==> len(o.CorrectedOutputAccounts[i].StorageUpdates) == len(A[str(o.CorrectedOutputAccounts[i].Address)].StorageUpdates)
func common.(*SerializableVMOutput).ConvertToVMOutput(o)
  nopanic
  requires o != nil && forall i int :: 0 <= i && i < len(o.CorrectedOutputAccounts) ==> o.CorrectedOutputAccounts[i] != nil && placed(o.CorrectedOutputAccounts[i].StorageUpdates)
  requires forall i int :: 0 <= i && i < len(o.CorrectedOutputAccounts) ==> keyPos(base(o.CorrectedOutputAccounts), str(o.CorrectedOutputAccounts[i].Address)) == i
  let L = o.CorrectedOutputAccounts
  ensures[new] result != nil && fresh(result) && result.OutputAccounts != nil
  ensures[fields] wireOutput(result, o)
  ensures[naccounts] len(result.OutputAccounts) == len(L)
  ensures[accounts] forall i int :: 0 <= i && i < len(L) ==> has(result.OutputAccounts, str(L[i].Address)) && result.OutputAccounts[str(L[i].Address)] != nil && wireAccount(result.OutputAccounts[str(L[i].Address)], L[i])
  ensures[ntransfers] forall i int :: 0 <= i && i < len(L) ==> len(result.OutputAccounts[str(L[i].Address)].OutputTransfers) == len(L[i].Transfers)
  ensures[nupdates] forall i int :: 0 <= i && i < len(L) ==> len(result.OutputAccounts[str(L[i].Address)].StorageUpdates) == len(L[i].StorageUpdates)
  inv {m map[string]*vmcommon.OutputAccount} fresh(m) && len(m) == iter
  inv {m map[string]*vmcommon.OutputAccount} forall j int :: 0 <= j && j < iter ==> has(m, str(L[j].Address)) && m[str(L[j].Address)] != nil && fresh(m[str(L[j].Address)]) && wireAccount(m[str(L[j].Address)], L[j])
  inv {m map[string]*vmcommon.OutputAccount} forall j int :: iter <= j && j < len(L) ==> !has(m, str(L[j].Address))
  inv {m map[string]*vmcommon.OutputAccount} forall i int :: 0 <= i && i < iter ==> fresh(m[str(L[i].Address)].OutputTransfers) && fresh(m[str(L[i].Address)].StorageUpdates)
  inv {m map[string]*vmcommon.OutputAccount} forall i int :: 0 <= i && i < iter ==> len(m[str(L[i].Address)].OutputTransfers) == len(L[i].Transfers)
  inv {m map[string]*vmcommon.OutputAccount} forall i int :: 0 <= i && i < iter ==> len(m[str(L[i].Address)].StorageUpdates) == len(L[i].StorageUpdates)

// ---- the messages of the two processes: each carries its kind, its arguments and the text of its error
func common.NewMessageBlockchainNewAddressRequest(creatorAddress, creatorNonce, vmType)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainNewAddressRequest
  ensures[payload] result.CreatorAddress == creatorAddress
  ensures[payload] result.CreatorNonce == creatorNonce
  ensures[payload] result.VmType == vmType
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainNewAddressResponse(r, err)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainNewAddressResponse
  ensures[payload] result.Result == r
  ensures[error] result.ErrorMessage == (err == nil ? "" : errmsg(ref(err)))
func common.NewMessageBlockchainGetStorageDataRequest(accountAddress, index)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainGetStorageDataRequest
  ensures[payload] result.AccountAddress == accountAddress
  ensures[payload] result.Index == index
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainGetStorageDataResponse(data, err)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainGetStorageDataResponse
  ensures[payload] result.Data == data
  ensures[error] result.ErrorMessage == (err == nil ? "" : errmsg(ref(err)))
func common.NewMessageBlockchainGetBlockhashRequest(nonce)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainGetBlockhashRequest
  ensures[payload] result.Nonce == nonce
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainGetBlockhashResponse(r, err)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainGetBlockhashResponse
  ensures[payload] result.Result == r
  ensures[error] result.ErrorMessage == (err == nil ? "" : errmsg(ref(err)))
func common.NewMessageBlockchainLastNonceRequest()
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainLastNonceRequest
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainLastNonceResponse(r)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainLastNonceResponse
  ensures[payload] result.Result == r
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainLastRoundRequest()
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainLastRoundRequest
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainLastRoundResponse(r)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainLastRoundResponse
  ensures[payload] result.Result == r
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainLastTimeStampRequest()
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainLastTimeStampRequest
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainLastTimeStampResponse(r)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainLastTimeStampResponse
  ensures[payload] result.Result == r
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainLastRandomSeedRequest()
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainLastRandomSeedRequest
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainLastRandomSeedResponse(r)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainLastRandomSeedResponse
  ensures[payload] result.Result == r
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainLastEpochRequest()
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainLastEpochRequest
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainLastEpochResponse(r)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainLastEpochResponse
  ensures[payload] result.Result == r
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainGetStateRootHashRequest()
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainGetStateRootHashRequest
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainGetStateRootHashResponse(r)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainGetStateRootHashResponse
  ensures[payload] result.Result == r
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainCurrentNonceRequest()
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainCurrentNonceRequest
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainCurrentNonceResponse(r)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainCurrentNonceResponse
  ensures[payload] result.Result == r
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainCurrentRoundRequest()
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainCurrentRoundRequest
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainCurrentRoundResponse(r)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainCurrentRoundResponse
  ensures[payload] result.Result == r
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainCurrentTimeStampRequest()
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainCurrentTimeStampRequest
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainCurrentTimeStampResponse(r)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainCurrentTimeStampResponse
  ensures[payload] result.Result == r
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainCurrentRandomSeedRequest()
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainCurrentRandomSeedRequest
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainCurrentRandomSeedResponse(r)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainCurrentRandomSeedResponse
  ensures[payload] result.Result == r
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainCurrentEpochRequest()
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainCurrentEpochRequest
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainCurrentEpochResponse(r)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainCurrentEpochResponse
  ensures[payload] result.Result == r
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainProcessBuiltInFunctionRequest(input)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainProcessBuiltInFunctionRequest
  ensures[payload] result.Input == input
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainProcessBuiltInFunctionResponse(vmOutput, err)
  nopanic
  requires vmOutput != nil ==> accsOk(vmOutput.OutputAccounts) && forall k string :: has(vmOutput.OutputAccounts, k) ==> keyedOk(vmOutput.OutputAccounts[k].StorageUpdates)
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainProcessBuiltInFunctionResponse
  ensures[payload] result.VmOutput != nil && (vmOutput != nil ==> wireOutput(result.VmOutput, vmOutput) && len(result.VmOutput.CorrectedOutputAccounts) == len(vmOutput.OutputAccounts))
  ensures[error] result.ErrorMessage == (err == nil ? "" : errmsg(ref(err)))
func common.NewMessageBlockchainGetBuiltinFunctionNamesRequest()
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainGetBuiltinFunctionNamesRequest
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainGetBuiltinFunctionNamesResponse(r)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainGetBuiltinFunctionNamesResponse
  ensures[payload] result.Result == r
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainGetAllStateRequest(address)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainGetAllStateRequest
  ensures[payload] result.Address == address
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainGetAllStateResponse(r, err)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainGetAllStateResponse
  ensures[payload] result.Result != nil && len(result.Result.Keys) == len(r) && len(result.Result.Values) == len(r) && forall i int :: 0 <= i && i < len(r) ==> has(r, str(result.Result.Keys[i])) && result.Result.Values[i] == r[str(result.Result.Keys[i])]
  ensures[error] result.ErrorMessage == (err == nil ? "" : errmsg(ref(err)))
func common.NewMessageBlockchainGetUserAccountRequest(address)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainGetUserAccountRequest
  ensures[payload] result.Address == address
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainGetUserAccountResponse(r, err)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainGetUserAccountResponse
  ensures[payload] result.Result == r
  ensures[error] result.ErrorMessage == (err == nil ? "" : errmsg(ref(err)))
func common.NewMessageBlockchainGetCodeRequest(account)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainGetCodeRequest
  ensures[payload] result.Account == account
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainGetCodeResponse(code)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainGetCodeResponse
  ensures[payload] result.Code == code
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainGetShardOfAddressRequest(address)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainGetShardOfAddressRequest
  ensures[payload] result.Address == address
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainGetShardOfAddressResponse(r)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainGetShardOfAddressResponse
  ensures[payload] result.Result == r
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainIsSmartContractRequest(address)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainIsSmartContractRequest
  ensures[payload] result.Address == address
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainIsSmartContractResponse(r)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainIsSmartContractResponse
  ensures[payload] result.Result == r
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainIsPayableRequest(address)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainIsPayableRequest
  ensures[payload] result.Address == address
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainIsPayableResponse(r, err)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainIsPayableResponse
  ensures[payload] result.Result == r
  ensures[error] result.ErrorMessage == (err == nil ? "" : errmsg(ref(err)))
func common.NewMessageBlockchainSaveCompiledCodeRequest(codeHash, code)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainSaveCompiledCodeRequest
  ensures[payload] result.CodeHash == codeHash
  ensures[payload] result.Code == code
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainSaveCompiledCodeResponse()
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainSaveCompiledCodeResponse
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainGetCompiledCodeRequest(codeHash)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainGetCompiledCodeRequest
  ensures[payload] result.CodeHash == codeHash
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainGetCompiledCodeResponse(found, code)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainGetCompiledCodeResponse
  ensures[payload] result.Found == found
  ensures[payload] result.Code == code
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainClearCompiledCodesRequest()
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainClearCompiledCodesRequest
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainClearCompiledCodesResponse()
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainClearCompiledCodesResponse
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainGetESDTTokenRequest(address, tokenID, nonce)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainGetESDTTokenRequest
  ensures[payload] result.Address == address
  ensures[payload] result.TokenID == tokenID
  ensures[payload] result.Nonce == nonce
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainGetESDTTokenResponse(r, err)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainGetESDTTokenResponse
  ensures[payload] result.Result == r
  ensures[error] result.ErrorMessage == (err == nil ? "" : errmsg(ref(err)))
func common.NewMessageBlockchainIsInterfaceNilRequest()
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainIsInterfaceNilRequest
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainIsInterfaceNilResponse(r)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainIsInterfaceNilResponse
  ensures[payload] result.Result == r
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainGetSnapshotRequest()
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainGetSnapshotRequest
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainGetSnapshotResponse(r)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainGetSnapshotResponse
  ensures[payload] result.Result == r
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainRevertToSnapshotRequest(snapshot)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainRevertToSnapshotRequest
  ensures[payload] result.Snapshot == snapshot
  ensures[error] result.ErrorMessage == ""
func common.NewMessageBlockchainRevertToSnapshotResponse(err)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.BlockchainRevertToSnapshotResponse
  ensures[error] result.ErrorMessage == (err == nil ? "" : errmsg(ref(err)))
func common.NewMessageContractDeployRequest(input)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.ContractDeployRequest
  ensures[payload] result.CreateInput == input
  ensures[error] result.ErrorMessage == ""
func common.NewMessageContractCallRequest(input)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.ContractCallRequest
  ensures[payload] result.CallInput == input
  ensures[error] result.ErrorMessage == ""
func common.NewMessageContractResponse(vmOutput, err)
  nopanic
  requires vmOutput != nil ==> accsOk(vmOutput.OutputAccounts) && forall k string :: has(vmOutput.OutputAccounts, k) ==> keyedOk(vmOutput.OutputAccounts[k].StorageUpdates)
  ensures[kind] result != nil && fresh(result) && result.Kind == common.ContractResponse
  ensures[payload] result.SerializableVMOutput != nil && (vmOutput != nil ==> wireOutput(result.SerializableVMOutput, vmOutput) && len(result.SerializableVMOutput.CorrectedOutputAccounts) == len(vmOutput.OutputAccounts))
  ensures[error] result.ErrorMessage == (err == nil ? "" : errmsg(ref(err)))
func common.NewMessageVersionRequest()
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.VersionRequest
  ensures[error] result.ErrorMessage == ""
func common.NewMessageVersionResponse(version)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.VersionResponse
  ensures[payload] result.Version == version
  ensures[error] result.ErrorMessage == ""
func common.NewMessageGasScheduleChangeRequest(gasSchedule)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.GasScheduleChangeRequest
  ensures[payload] result.GasSchedule == gasSchedule
  ensures[error] result.ErrorMessage == ""
func common.NewGasScheduleChangeResponse()
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.GasScheduleChangeResponse
  ensures[error] result.ErrorMessage == ""
func common.NewMessageDiagnoseWaitRequest(milliseconds)
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.DiagnoseWaitRequest
  ensures[payload] result.Milliseconds == milliseconds
  ensures[error] result.ErrorMessage == ""
func common.NewMessageDiagnoseWaitResponse()
  nopanic
  ensures[kind] result != nil && fresh(result) && result.Kind == common.DiagnoseWaitResponse
  ensures[error] result.ErrorMessage == ""

// ---- the two ends
pred ready(m) = m.sender != nil && m.sender.writer != nil && m.sender.marshalizer != nil && m.receiver != nil && m.receiver.reader != nil && m.receiver.marshalizer != nil
pred accepted(s, o) = len(s) >= 8 + at32(s, 0) && decoded(o, first(rest(s, 8), at32(s, 0)), at32(s, 4))
func arwenpart.(*ArwenMessenger).ReceiveNodeRequest(m)
  nopanic
  requires m != nil && ready(m.Messenger) && m.Messenger.Nonce == 0
  modifies obj(m), $inp, $nonce, $kind, $body, $last
  ensures[ready] ready(m.Messenger)
  let s = $inp[ref(m.Messenger.receiver.reader)]
  let c = m.Messenger.Nonce
  ensures[none] result1 != nil ==> result0 == nil && m.Messenger.Nonce == c
  ensures[request] result1 == nil ==> result0 != nil && accepted(s, result0) && $nonce[ref(result0)] == next(c) && m.Messenger.Nonce == next(c)
func arwenpart.(*ArwenMessenger).SendContractResponse(m, message)
  nopanic
  requires m != nil && ready(m.Messenger) && message != nil
  modifies obj(m), $pipe, $nonce, $sent
  ensures[ready] ready(m.Messenger)
  let w = ref(m.Messenger.sender.writer)
  let c = next(m.Messenger.Nonce)
  let b = wire(c, $kind[ref(message)], $body[ref(message)])
  ensures[nonce] m.Messenger.Nonce == c && $nonce == store(old($nonce), ref(message), c)
  ensures[framed] result == nil ==> $pipe[w] == then(then(old($pipe)[w], header(len(b), $kind[ref(message)])), b)
func arwenpart.(*ArwenMessenger).SendHookCallRequest(m, message)
  nopanic
  requires m != nil && ready(m.Messenger) && message != nil
  modifies obj(m), $pipe, $inp, $nonce, $kind, $body, $sent, $last
  let w = ref(m.Messenger.sender.writer)
  let s = $inp[ref(m.Messenger.receiver.reader)]
  let c = next(m.Messenger.Nonce)
  let k = $kind[ref(message)]
  let b = wire(c, k, $body[ref(message)])
  ensures[framed] result1 == nil ==> $pipe[w] == then(then(old($pipe)[w], header(len(b), k)), b)
  ensures[reply] result1 == nil ==> result0 != nil && result0 != message && accepted(s, result0) && $nonce[ref(result0)] == next(c) && m.Messenger.Nonce == next(c)
  ensures[none] result1 != nil ==> result0 == nil && m.Messenger.Nonce == c
  ensures[sent] $sent == ref(message)
  ensures[last] result1 == nil ==> $last == ref(result0)
// a failure the node reports for a revert is not taken for a success
func arwenpart.(*BlockchainHookGateway).RevertToSnapshot(g, snapshot)
  nopanic
  requires g != nil && g.messenger != nil && ready(g.messenger.Messenger)
  modifies obj(g.messenger), $pipe, $inp, $nonce, $kind, $body, $sent, $last
  let s = $inp[ref(g.messenger.Messenger.receiver.reader)]
  let k = at32(s, 4)
  let e = errText(wireBody(first(rest(s, 8), at32(s, 0)), k < 73 ? k : 72))
  ensures[failed] result == nil ==> len(e) == 0
  ensures[kind] result == nil ==> wireKind(first(rest(s, 8), at32(s, 0))) == common.BlockchainRevertToSnapshotResponse
func nodepart.(*NodeMessenger).SendContractRequest(m, message)
  nopanic
  requires m != nil && ready(m.Messenger) && message != nil
  modifies obj(m), $pipe, $nonce, $sent
  ensures[ready] ready(m.Messenger)
  let w = ref(m.Messenger.sender.writer)
  let c = next(m.Messenger.Nonce)
  let b = wire(c, $kind[ref(message)], $body[ref(message)])
  ensures[nonce] m.Messenger.Nonce == c && $nonce == store(old($nonce), ref(message), c)
  ensures[framed] result == nil ==> $pipe[w] == then(then(old($pipe)[w], header(len(b), $kind[ref(message)])), b)
  ensures[error] result != nil ==> result == common.ErrCannotSendContractRequest
func nodepart.(*NodeMessenger).SendHookCallResponse(m, message)
  nopanic
  requires m != nil && ready(m.Messenger) && message != nil
  modifies obj(m), $pipe, $nonce, $sent
  ensures[ready] ready(m.Messenger)
  let w = ref(m.Messenger.sender.writer)
  let c = next(m.Messenger.Nonce)
  let b = wire(c, $kind[ref(message)], $body[ref(message)])
  ensures[nonce] m.Messenger.Nonce == c && $nonce == store(old($nonce), ref(message), c)
  ensures[framed] result == nil ==> $pipe[w] == then(then(old($pipe)[w], header(len(b), $kind[ref(message)])), b)
func nodepart.(*NodeMessenger).ReceiveHookCallRequestOrContractResponse(m, timeout)
  nopanic
  requires m != nil && ready(m.Messenger)
  modifies obj(m), $inp, $nonce, $kind, $body, $last
  ensures[ready] ready(m.Messenger)
  let s = $inp[ref(m.Messenger.receiver.reader)]
  let c = m.Messenger.Nonce
  ensures[none] result2 != nil ==> result0 == nil && m.Messenger.Nonce == c
  ensures[request] result2 == nil ==> result0 != nil && accepted(s, result0) && $nonce[ref(result0)] == next(c) && m.Messenger.Nonce == next(c)

// a dialogue starts and ends at number zero
trusted nodepart.(*NodePart).replyToHookCallRequest(p, request)
  requires ready(p.Messenger.Messenger)
  modifies obj(p.Messenger), $pipe, $inp, $nonce, $kind, $body, $sent, $last
  ensures ready(p.Messenger.Messenger)
pred ends(k) = k == common.VersionResponse || k == common.ContractResponse || k == common.DiagnoseWaitRequest || k == common.DiagnoseWaitResponse || k == common.GasScheduleChangeResponse
func nodepart.(*NodePart).doLoop(p)
  nopanic
  requires p != nil && p.Messenger != nil && ready(p.Messenger.Messenger)
  modifies obj(p.Messenger), $pipe, $inp, $nonce, $kind, $body, $sent, $last
  ensures[answer] result1 == nil ==> result0 != nil && ends($kind[ref(result0)])
  ensures[none] result1 != nil ==> result0 == nil
  inv ready(p.Messenger.Messenger)
func nodepart.(*NodePart).StartLoop(p, request)
  nopanic
  requires p != nil && p.Messenger != nil && ready(p.Messenger.Messenger) && request != nil && p.Messenger.Messenger.Nonce == 0
  modifies obj(p.Messenger), $pipe, $inp, $nonce, $kind, $body, $sent, $last
  // however the dialogue ends, the next one starts at number 0 (a request that could not be sent has not begun one)
  ensures[reset] result1 != common.ErrCannotSendContractRequest ==> p.Messenger.Messenger.Nonce == 0
  ensures[answer] result1 == nil ==> result0 != nil && ends($kind[ref(result0)])
  ensures[none] result1 != nil ==> result0 == nil
trusted arwenpart.(*ArwenPart).replyToNodeRequest(p, request)
  modifies obj(p.Messenger), $pipe, $inp, $nonce, $kind, $body, $sent, $last
  ensures result != nil && ready(p.Messenger.Messenger)
func arwenpart.(*ArwenPart).doLoop(p)
  nopanic
  requires p != nil && p.Messenger != nil && ready(p.Messenger.Messenger) && p.Messenger.Messenger.Nonce == 0
  modifies obj(p.Messenger), $pipe, $inp, $nonce, $kind, $body, $sent, $last
  ensures[end] result != nil
  inv ready(p.Messenger.Messenger)
  inv p.Messenger.Messenger.Nonce == 0

// every kind is received as a message of its own type: the initialisation of the package, then the creation
case common.CreateMessage@unknown(kind)
  nopanic
  setup
  requires kind >= common.LastKind
  ensures[type] is(result, *common.UndefinedMessage) && fresh(result)
case common.CreateMessage@Initialize(kind)
  nopanic
  setup
  bind kind common.Initialize
  ensures[type] is(result, *common.MessageInitialize) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.Initialize
case common.CreateMessage@Stop(kind)
  nopanic
  setup
  bind kind common.Stop
  ensures[type] is(result, *common.MessageStop) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.Stop
case common.CreateMessage@ContractDeployRequest(kind)
  nopanic
  setup
  bind kind common.ContractDeployRequest
  ensures[type] is(result, *common.MessageContractDeployRequest) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.ContractDeployRequest
case common.CreateMessage@ContractCallRequest(kind)
  nopanic
  setup
  bind kind common.ContractCallRequest
  ensures[type] is(result, *common.MessageContractCallRequest) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.ContractCallRequest
case common.CreateMessage@ContractResponse(kind)
  nopanic
  setup
  bind kind common.ContractResponse
  ensures[type] is(result, *common.MessageContractResponse) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.ContractResponse
case common.CreateMessage@GasScheduleChangeRequest(kind)
  nopanic
  setup
  bind kind common.GasScheduleChangeRequest
  ensures[type] is(result, *common.MessageGasScheduleChangeRequest) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.GasScheduleChangeRequest
case common.CreateMessage@GasScheduleChangeResponse(kind)
  nopanic
  setup
  bind kind common.GasScheduleChangeResponse
  ensures[type] is(result, *common.Message) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.GasScheduleChangeResponse
case common.CreateMessage@BlockchainNewAddressRequest(kind)
  nopanic
  setup
  bind kind common.BlockchainNewAddressRequest
  ensures[type] is(result, *common.MessageBlockchainNewAddressRequest) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainNewAddressRequest
case common.CreateMessage@BlockchainNewAddressResponse(kind)
  nopanic
  setup
  bind kind common.BlockchainNewAddressResponse
  ensures[type] is(result, *common.MessageBlockchainNewAddressResponse) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainNewAddressResponse
case common.CreateMessage@BlockchainGetStorageDataRequest(kind)
  nopanic
  setup
  bind kind common.BlockchainGetStorageDataRequest
  ensures[type] is(result, *common.MessageBlockchainGetStorageDataRequest) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainGetStorageDataRequest
case common.CreateMessage@BlockchainGetStorageDataResponse(kind)
  nopanic
  setup
  bind kind common.BlockchainGetStorageDataResponse
  ensures[type] is(result, *common.MessageBlockchainGetStorageDataResponse) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainGetStorageDataResponse
case common.CreateMessage@BlockchainGetBlockhashRequest(kind)
  nopanic
  setup
  bind kind common.BlockchainGetBlockhashRequest
  ensures[type] is(result, *common.MessageBlockchainGetBlockhashRequest) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainGetBlockhashRequest
case common.CreateMessage@BlockchainGetBlockhashResponse(kind)
  nopanic
  setup
  bind kind common.BlockchainGetBlockhashResponse
  ensures[type] is(result, *common.MessageBlockchainGetBlockhashResponse) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainGetBlockhashResponse
case common.CreateMessage@BlockchainLastNonceRequest(kind)
  nopanic
  setup
  bind kind common.BlockchainLastNonceRequest
  ensures[type] is(result, *common.MessageBlockchainLastNonceRequest) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainLastNonceRequest
case common.CreateMessage@BlockchainLastNonceResponse(kind)
  nopanic
  setup
  bind kind common.BlockchainLastNonceResponse
  ensures[type] is(result, *common.MessageBlockchainLastNonceResponse) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainLastNonceResponse
case common.CreateMessage@BlockchainLastRoundRequest(kind)
  nopanic
  setup
  bind kind common.BlockchainLastRoundRequest
  ensures[type] is(result, *common.MessageBlockchainLastRoundRequest) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainLastRoundRequest
case common.CreateMessage@BlockchainLastRoundResponse(kind)
  nopanic
  setup
  bind kind common.BlockchainLastRoundResponse
  ensures[type] is(result, *common.MessageBlockchainLastRoundResponse) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainLastRoundResponse
case common.CreateMessage@BlockchainLastTimeStampRequest(kind)
  nopanic
  setup
  bind kind common.BlockchainLastTimeStampRequest
  ensures[type] is(result, *common.MessageBlockchainLastTimeStampRequest) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainLastTimeStampRequest
case common.CreateMessage@BlockchainLastTimeStampResponse(kind)
  nopanic
  setup
  bind kind common.BlockchainLastTimeStampResponse
  ensures[type] is(result, *common.MessageBlockchainLastTimeStampResponse) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainLastTimeStampResponse
case common.CreateMessage@BlockchainLastRandomSeedRequest(kind)
  nopanic
  setup
  bind kind common.BlockchainLastRandomSeedRequest
  ensures[type] is(result, *common.MessageBlockchainLastRandomSeedRequest) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainLastRandomSeedRequest
case common.CreateMessage@BlockchainLastRandomSeedResponse(kind)
  nopanic
  setup
  bind kind common.BlockchainLastRandomSeedResponse
  ensures[type] is(result, *common.MessageBlockchainLastRandomSeedResponse) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainLastRandomSeedResponse
case common.CreateMessage@BlockchainLastEpochRequest(kind)
  nopanic
  setup
  bind kind common.BlockchainLastEpochRequest
  ensures[type] is(result, *common.MessageBlockchainLastEpochRequest) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainLastEpochRequest
case common.CreateMessage@BlockchainLastEpochResponse(kind)
  nopanic
  setup
  bind kind common.BlockchainLastEpochResponse
  ensures[type] is(result, *common.MessageBlockchainLastEpochResponse) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainLastEpochResponse
case common.CreateMessage@BlockchainGetStateRootHashRequest(kind)
  nopanic
  setup
  bind kind common.BlockchainGetStateRootHashRequest
  ensures[type] is(result, *common.MessageBlockchainGetStateRootHashRequest) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainGetStateRootHashRequest
case common.CreateMessage@BlockchainGetStateRootHashResponse(kind)
  nopanic
  setup
  bind kind common.BlockchainGetStateRootHashResponse
  ensures[type] is(result, *common.MessageBlockchainGetStateRootHashResponse) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainGetStateRootHashResponse
case common.CreateMessage@BlockchainCurrentNonceRequest(kind)
  nopanic
  setup
  bind kind common.BlockchainCurrentNonceRequest
  ensures[type] is(result, *common.MessageBlockchainCurrentNonceRequest) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainCurrentNonceRequest
case common.CreateMessage@BlockchainCurrentNonceResponse(kind)
  nopanic
  setup
  bind kind common.BlockchainCurrentNonceResponse
  ensures[type] is(result, *common.MessageBlockchainCurrentNonceResponse) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainCurrentNonceResponse
case common.CreateMessage@BlockchainCurrentRoundRequest(kind)
  nopanic
  setup
  bind kind common.BlockchainCurrentRoundRequest
  ensures[type] is(result, *common.MessageBlockchainCurrentRoundRequest) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainCurrentRoundRequest
case common.CreateMessage@BlockchainCurrentRoundResponse(kind)
  nopanic
  setup
  bind kind common.BlockchainCurrentRoundResponse
  ensures[type] is(result, *common.MessageBlockchainCurrentRoundResponse) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainCurrentRoundResponse
case common.CreateMessage@BlockchainCurrentTimeStampRequest(kind)
  nopanic
  setup
  bind kind common.BlockchainCurrentTimeStampRequest
  ensures[type] is(result, *common.MessageBlockchainCurrentTimeStampRequest) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainCurrentTimeStampRequest
case common.CreateMessage@BlockchainCurrentTimeStampResponse(kind)
  nopanic
  setup
  bind kind common.BlockchainCurrentTimeStampResponse
  ensures[type] is(result, *common.MessageBlockchainCurrentTimeStampResponse) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainCurrentTimeStampResponse
case common.CreateMessage@BlockchainCurrentRandomSeedRequest(kind)
  nopanic
  setup
  bind kind common.BlockchainCurrentRandomSeedRequest
  ensures[type] is(result, *common.MessageBlockchainCurrentRandomSeedRequest) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainCurrentRandomSeedRequest
case common.CreateMessage@BlockchainCurrentRandomSeedResponse(kind)
  nopanic
  setup
  bind kind common.BlockchainCurrentRandomSeedResponse
  ensures[type] is(result, *common.MessageBlockchainCurrentRandomSeedResponse) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainCurrentRandomSeedResponse
case common.CreateMessage@BlockchainCurrentEpochRequest(kind)
  nopanic
  setup
  bind kind common.BlockchainCurrentEpochRequest
  ensures[type] is(result, *common.MessageBlockchainCurrentEpochRequest) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainCurrentEpochRequest
case common.CreateMessage@BlockchainCurrentEpochResponse(kind)
  nopanic
  setup
  bind kind common.BlockchainCurrentEpochResponse
  ensures[type] is(result, *common.MessageBlockchainCurrentEpochResponse) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainCurrentEpochResponse
case common.CreateMessage@BlockchainGetESDTTokenRequest(kind)
  nopanic
  setup
  bind kind common.BlockchainGetESDTTokenRequest
  ensures[type] is(result, *common.MessageBlockchainGetESDTTokenRequest) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainGetESDTTokenRequest
case common.CreateMessage@BlockchainGetESDTTokenResponse(kind)
  nopanic
  setup
  bind kind common.BlockchainGetESDTTokenResponse
  ensures[type] is(result, *common.MessageBlockchainGetESDTTokenResponse) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainGetESDTTokenResponse
case common.CreateMessage@BlockchainGetBuiltinFunctionNamesRequest(kind)
  nopanic
  setup
  bind kind common.BlockchainGetBuiltinFunctionNamesRequest
  ensures[type] is(result, *common.MessageBlockchainGetBuiltinFunctionNamesRequest) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainGetBuiltinFunctionNamesRequest
case common.CreateMessage@BlockchainGetBuiltinFunctionNamesResponse(kind)
  nopanic
  setup
  bind kind common.BlockchainGetBuiltinFunctionNamesResponse
  ensures[type] is(result, *common.MessageBlockchainGetBuiltinFunctionNamesResponse) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainGetBuiltinFunctionNamesResponse
case common.CreateMessage@BlockchainGetAllStateRequest(kind)
  nopanic
  setup
  bind kind common.BlockchainGetAllStateRequest
  ensures[type] is(result, *common.MessageBlockchainGetAllStateRequest) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainGetAllStateRequest
case common.CreateMessage@BlockchainGetAllStateResponse(kind)
  nopanic
  setup
  bind kind common.BlockchainGetAllStateResponse
  ensures[type] is(result, *common.MessageBlockchainGetAllStateResponse) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainGetAllStateResponse
case common.CreateMessage@BlockchainGetUserAccountRequest(kind)
  nopanic
  setup
  bind kind common.BlockchainGetUserAccountRequest
  ensures[type] is(result, *common.MessageBlockchainGetUserAccountRequest) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainGetUserAccountRequest
case common.CreateMessage@BlockchainGetUserAccountResponse(kind)
  nopanic
  setup
  bind kind common.BlockchainGetUserAccountResponse
  ensures[type] is(result, *common.MessageBlockchainGetUserAccountResponse) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainGetUserAccountResponse
case common.CreateMessage@BlockchainGetCodeRequest(kind)
  nopanic
  setup
  bind kind common.BlockchainGetCodeRequest
  ensures[type] is(result, *common.MessageBlockchainGetCodeRequest) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainGetCodeRequest
case common.CreateMessage@BlockchainGetCodeResponse(kind)
  nopanic
  setup
  bind kind common.BlockchainGetCodeResponse
  ensures[type] is(result, *common.MessageBlockchainGetCodeResponse) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainGetCodeResponse
case common.CreateMessage@BlockchainGetShardOfAddressRequest(kind)
  nopanic
  setup
  bind kind common.BlockchainGetShardOfAddressRequest
  ensures[type] is(result, *common.MessageBlockchainGetShardOfAddressRequest) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainGetShardOfAddressRequest
case common.CreateMessage@BlockchainGetShardOfAddressResponse(kind)
  nopanic
  setup
  bind kind common.BlockchainGetShardOfAddressResponse
  ensures[type] is(result, *common.MessageBlockchainGetShardOfAddressResponse) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainGetShardOfAddressResponse
case common.CreateMessage@BlockchainIsPayableRequest(kind)
  nopanic
  setup
  bind kind common.BlockchainIsPayableRequest
  ensures[type] is(result, *common.MessageBlockchainIsPayableRequest) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainIsPayableRequest
case common.CreateMessage@BlockchainIsPayableResponse(kind)
  nopanic
  setup
  bind kind common.BlockchainIsPayableResponse
  ensures[type] is(result, *common.MessageBlockchainIsPayableResponse) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainIsPayableResponse
case common.CreateMessage@BlockchainIsSmartContractRequest(kind)
  nopanic
  setup
  bind kind common.BlockchainIsSmartContractRequest
  ensures[type] is(result, *common.MessageBlockchainIsSmartContractRequest) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainIsSmartContractRequest
case common.CreateMessage@BlockchainIsSmartContractResponse(kind)
  nopanic
  setup
  bind kind common.BlockchainIsSmartContractResponse
  ensures[type] is(result, *common.MessageBlockchainIsSmartContractResponse) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainIsSmartContractResponse
case common.CreateMessage@BlockchainSaveCompiledCodeRequest(kind)
  nopanic
  setup
  bind kind common.BlockchainSaveCompiledCodeRequest
  ensures[type] is(result, *common.MessageBlockchainSaveCompiledCodeRequest) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainSaveCompiledCodeRequest
case common.CreateMessage@BlockchainSaveCompiledCodeResponse(kind)
  nopanic
  setup
  bind kind common.BlockchainSaveCompiledCodeResponse
  ensures[type] is(result, *common.MessageBlockchainSaveCompiledCodeResponse) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainSaveCompiledCodeResponse
case common.CreateMessage@BlockchainGetCompiledCodeRequest(kind)
  nopanic
  setup
  bind kind common.BlockchainGetCompiledCodeRequest
  ensures[type] is(result, *common.MessageBlockchainGetCompiledCodeRequest) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainGetCompiledCodeRequest
case common.CreateMessage@BlockchainGetCompiledCodeResponse(kind)
  nopanic
  setup
  bind kind common.BlockchainGetCompiledCodeResponse
  ensures[type] is(result, *common.MessageBlockchainGetCompiledCodeResponse) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainGetCompiledCodeResponse
case common.CreateMessage@DiagnoseWaitRequest(kind)
  nopanic
  setup
  bind kind common.DiagnoseWaitRequest
  ensures[type] is(result, *common.MessageDiagnoseWaitRequest) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.DiagnoseWaitRequest
case common.CreateMessage@DiagnoseWaitResponse(kind)
  nopanic
  setup
  bind kind common.DiagnoseWaitResponse
  ensures[type] is(result, *common.MessageDiagnoseWaitResponse) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.DiagnoseWaitResponse
case common.CreateMessage@VersionRequest(kind)
  nopanic
  setup
  bind kind common.VersionRequest
  ensures[type] is(result, *common.MessageVersionRequest) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.VersionRequest
case common.CreateMessage@VersionResponse(kind)
  nopanic
  setup
  bind kind common.VersionResponse
  ensures[type] is(result, *common.MessageVersionResponse) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.VersionResponse
case common.CreateMessage@BlockchainClearCompiledCodesRequest(kind)
  nopanic
  setup
  bind kind common.BlockchainClearCompiledCodesRequest
  ensures[type] is(result, *common.MessageBlockchainClearCompiledCodesRequest) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainClearCompiledCodesRequest
case common.CreateMessage@BlockchainClearCompiledCodesResponse(kind)
  nopanic
  setup
  bind kind common.BlockchainClearCompiledCodesResponse
  ensures[type] is(result, *common.MessageBlockchainClearCompiledCodesResponse) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainClearCompiledCodesResponse
case common.CreateMessage@BlockchainGetSnapshotRequest(kind)
  nopanic
  setup
  bind kind common.BlockchainGetSnapshotRequest
  ensures[type] is(result, *common.MessageBlockchainGetSnapshotRequest) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainGetSnapshotRequest
case common.CreateMessage@BlockchainGetSnapshotResponse(kind)
  nopanic
  setup
  bind kind common.BlockchainGetSnapshotResponse
  ensures[type] is(result, *common.MessageBlockchainGetSnapshotResponse) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainGetSnapshotResponse
case common.CreateMessage@BlockchainIsInterfaceNilRequest(kind)
  nopanic
  setup
  bind kind common.BlockchainIsInterfaceNilRequest
  ensures[type] is(result, *common.MessageBlockchainIsInterfaceNilRequest) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainIsInterfaceNilRequest
case common.CreateMessage@BlockchainIsInterfaceNilResponse(kind)
  nopanic
  setup
  bind kind common.BlockchainIsInterfaceNilResponse
  ensures[type] is(result, *common.MessageBlockchainIsInterfaceNilResponse) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainIsInterfaceNilResponse
case common.CreateMessage@BlockchainRevertToSnapshotRequest(kind)
  nopanic
  setup
  bind kind common.BlockchainRevertToSnapshotRequest
  ensures[type] is(result, *common.MessageBlockchainRevertToSnapshotRequest) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainRevertToSnapshotRequest
case common.CreateMessage@BlockchainRevertToSnapshotResponse(kind)
  nopanic
  setup
  bind kind common.BlockchainRevertToSnapshotResponse
  ensures[type] is(result, *common.MessageBlockchainRevertToSnapshotResponse) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainRevertToSnapshotResponse
case common.CreateMessage@BlockchainProcessBuiltInFunctionRequest(kind)
  nopanic
  setup
  bind kind common.BlockchainProcessBuiltInFunctionRequest
  ensures[type] is(result, *common.MessageBlockchainProcessBuiltInFunctionRequest) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainProcessBuiltInFunctionRequest
case common.CreateMessage@BlockchainProcessBuiltInFunctionResponse(kind)
  nopanic
  setup
  bind kind common.BlockchainProcessBuiltInFunctionResponse
  ensures[type] is(result, *common.MessageBlockchainProcessBuiltInFunctionResponse) && fresh(result)
  ensures[kind] $kind[ref(result)] == common.BlockchainProcessBuiltInFunctionResponse

// ---- what the machine asks the node: the request carries the question, the answer is what the reply carries
func arwenpart.(*BlockchainHookGateway).LastNonce(g)
  requires g != nil && g.messenger != nil && ready(g.messenger.Messenger)
  modifies obj(g.messenger), $pipe, $inp, $nonce, $kind, $body, $sent, $last
  ensures[request] is(typed($sent, "common.MessageHandler"), *common.MessageBlockchainLastNonceRequest) && typed($sent, "common.MessageHandler").(*common.MessageBlockchainLastNonceRequest).Kind == common.BlockchainLastNonceRequest
  ensures[answer] is(typed($last, "common.MessageHandler"), *common.MessageBlockchainLastNonceResponse) && result == typed($last, "common.MessageHandler").(*common.MessageBlockchainLastNonceResponse).Result || result == 0
func arwenpart.(*BlockchainHookGateway).LastRound(g)
  requires g != nil && g.messenger != nil && ready(g.messenger.Messenger)
  modifies obj(g.messenger), $pipe, $inp, $nonce, $kind, $body, $sent, $last
  ensures[request] is(typed($sent, "common.MessageHandler"), *common.MessageBlockchainLastRoundRequest) && typed($sent, "common.MessageHandler").(*common.MessageBlockchainLastRoundRequest).Kind == common.BlockchainLastRoundRequest
  ensures[answer] is(typed($last, "common.MessageHandler"), *common.MessageBlockchainLastRoundResponse) && result == typed($last, "common.MessageHandler").(*common.MessageBlockchainLastRoundResponse).Result || result == 0
func arwenpart.(*BlockchainHookGateway).LastTimeStamp(g)
  requires g != nil && g.messenger != nil && ready(g.messenger.Messenger)
  modifies obj(g.messenger), $pipe, $inp, $nonce, $kind, $body, $sent, $last
  ensures[request] is(typed($sent, "common.MessageHandler"), *common.MessageBlockchainLastTimeStampRequest) && typed($sent, "common.MessageHandler").(*common.MessageBlockchainLastTimeStampRequest).Kind == common.BlockchainLastTimeStampRequest
  ensures[answer] is(typed($last, "common.MessageHandler"), *common.MessageBlockchainLastTimeStampResponse) && result == typed($last, "common.MessageHandler").(*common.MessageBlockchainLastTimeStampResponse).Result || result == 0
func arwenpart.(*BlockchainHookGateway).LastEpoch(g)
  requires g != nil && g.messenger != nil && ready(g.messenger.Messenger)
  modifies obj(g.messenger), $pipe, $inp, $nonce, $kind, $body, $sent, $last
  ensures[request] is(typed($sent, "common.MessageHandler"), *common.MessageBlockchainLastEpochRequest) && typed($sent, "common.MessageHandler").(*common.MessageBlockchainLastEpochRequest).Kind == common.BlockchainLastEpochRequest
  ensures[answer] is(typed($last, "common.MessageHandler"), *common.MessageBlockchainLastEpochResponse) && result == typed($last, "common.MessageHandler").(*common.MessageBlockchainLastEpochResponse).Result || result == 0
func arwenpart.(*BlockchainHookGateway).CurrentNonce(g)
  requires g != nil && g.messenger != nil && ready(g.messenger.Messenger)
  modifies obj(g.messenger), $pipe, $inp, $nonce, $kind, $body, $sent, $last
  ensures[request] is(typed($sent, "common.MessageHandler"), *common.MessageBlockchainCurrentNonceRequest) && typed($sent, "common.MessageHandler").(*common.MessageBlockchainCurrentNonceRequest).Kind == common.BlockchainCurrentNonceRequest
  ensures[answer] is(typed($last, "common.MessageHandler"), *common.MessageBlockchainCurrentNonceResponse) && result == typed($last, "common.MessageHandler").(*common.MessageBlockchainCurrentNonceResponse).Result || result == 0
func arwenpart.(*BlockchainHookGateway).CurrentRound(g)
  requires g != nil && g.messenger != nil && ready(g.messenger.Messenger)
  modifies obj(g.messenger), $pipe, $inp, $nonce, $kind, $body, $sent, $last
  ensures[request] is(typed($sent, "common.MessageHandler"), *common.MessageBlockchainCurrentRoundRequest) && typed($sent, "common.MessageHandler").(*common.MessageBlockchainCurrentRoundRequest).Kind == common.BlockchainCurrentRoundRequest
  ensures[answer] is(typed($last, "common.MessageHandler"), *common.MessageBlockchainCurrentRoundResponse) && result == typed($last, "common.MessageHandler").(*common.MessageBlockchainCurrentRoundResponse).Result || result == 0
func arwenpart.(*BlockchainHookGateway).CurrentTimeStamp(g)
  requires g != nil && g.messenger != nil && ready(g.messenger.Messenger)
  modifies obj(g.messenger), $pipe, $inp, $nonce, $kind, $body, $sent, $last
  ensures[request] is(typed($sent, "common.MessageHandler"), *common.MessageBlockchainCurrentTimeStampRequest) && typed($sent, "common.MessageHandler").(*common.MessageBlockchainCurrentTimeStampRequest).Kind == common.BlockchainCurrentTimeStampRequest
  ensures[answer] is(typed($last, "common.MessageHandler"), *common.MessageBlockchainCurrentTimeStampResponse) && result == typed($last, "common.MessageHandler").(*common.MessageBlockchainCurrentTimeStampResponse).Result || result == 0
func arwenpart.(*BlockchainHookGateway).CurrentEpoch(g)
  requires g != nil && g.messenger != nil && ready(g.messenger.Messenger)
  modifies obj(g.messenger), $pipe, $inp, $nonce, $kind, $body, $sent, $last
  ensures[request] is(typed($sent, "common.MessageHandler"), *common.MessageBlockchainCurrentEpochRequest) && typed($sent, "common.MessageHandler").(*common.MessageBlockchainCurrentEpochRequest).Kind == common.BlockchainCurrentEpochRequest
  ensures[answer] is(typed($last, "common.MessageHandler"), *common.MessageBlockchainCurrentEpochResponse) && result == typed($last, "common.MessageHandler").(*common.MessageBlockchainCurrentEpochResponse).Result || result == 0
func arwenpart.(*BlockchainHookGateway).LastRandomSeed(g)
  requires g != nil && g.messenger != nil && ready(g.messenger.Messenger)
  modifies obj(g.messenger), $pipe, $inp, $nonce, $kind, $body, $sent, $last
  ensures[request] is(typed($sent, "common.MessageHandler"), *common.MessageBlockchainLastRandomSeedRequest) && typed($sent, "common.MessageHandler").(*common.MessageBlockchainLastRandomSeedRequest).Kind == common.BlockchainLastRandomSeedRequest
  ensures[answer] is(typed($last, "common.MessageHandler"), *common.MessageBlockchainLastRandomSeedResponse) && result == typed($last, "common.MessageHandler").(*common.MessageBlockchainLastRandomSeedResponse).Result || len(result) == 0
func arwenpart.(*BlockchainHookGateway).GetStateRootHash(g)
  requires g != nil && g.messenger != nil && ready(g.messenger.Messenger)
  modifies obj(g.messenger), $pipe, $inp, $nonce, $kind, $body, $sent, $last
  ensures[request] is(typed($sent, "common.MessageHandler"), *common.MessageBlockchainGetStateRootHashRequest) && typed($sent, "common.MessageHandler").(*common.MessageBlockchainGetStateRootHashRequest).Kind == common.BlockchainGetStateRootHashRequest
  ensures[answer] is(typed($last, "common.MessageHandler"), *common.MessageBlockchainGetStateRootHashResponse) && result == typed($last, "common.MessageHandler").(*common.MessageBlockchainGetStateRootHashResponse).Result || len(result) == 0
func arwenpart.(*BlockchainHookGateway).CurrentRandomSeed(g)
  requires g != nil && g.messenger != nil && ready(g.messenger.Messenger)
  modifies obj(g.messenger), $pipe, $inp, $nonce, $kind, $body, $sent, $last
  ensures[request] is(typed($sent, "common.MessageHandler"), *common.MessageBlockchainCurrentRandomSeedRequest) && typed($sent, "common.MessageHandler").(*common.MessageBlockchainCurrentRandomSeedRequest).Kind == common.BlockchainCurrentRandomSeedRequest
  ensures[answer] is(typed($last, "common.MessageHandler"), *common.MessageBlockchainCurrentRandomSeedResponse) && result == typed($last, "common.MessageHandler").(*common.MessageBlockchainCurrentRandomSeedResponse).Result || len(result) == 0
func arwenpart.(*BlockchainHookGateway).NewAddress(g, creatorAddress, creatorNonce, vmType)
  requires g != nil && g.messenger != nil && ready(g.messenger.Messenger)
  modifies obj(g.messenger), $pipe, $inp, $nonce, $kind, $body, $sent, $last
  ensures[request] is(typed($sent, "common.MessageHandler"), *common.MessageBlockchainNewAddressRequest) && typed($sent, "common.MessageHandler").(*common.MessageBlockchainNewAddressRequest).Kind == common.BlockchainNewAddressRequest
  ensures[question] typed($sent, "common.MessageHandler").(*common.MessageBlockchainNewAddressRequest).CreatorAddress == creatorAddress
  ensures[question] typed($sent, "common.MessageHandler").(*common.MessageBlockchainNewAddressRequest).CreatorNonce == creatorNonce
  ensures[question] typed($sent, "common.MessageHandler").(*common.MessageBlockchainNewAddressRequest).VmType == vmType
  ensures[answer] result1 == nil ==> is(typed($last, "common.MessageHandler"), *common.MessageBlockchainNewAddressResponse) && typed($last, "common.MessageHandler").(*common.MessageBlockchainNewAddressResponse).ErrorMessage == "" && result0 == typed($last, "common.MessageHandler").(*common.MessageBlockchainNewAddressResponse).Result
func arwenpart.(*BlockchainHookGateway).GetStorageData(g, accountAddress, index)
  requires g != nil && g.messenger != nil && ready(g.messenger.Messenger)
  modifies obj(g.messenger), $pipe, $inp, $nonce, $kind, $body, $sent, $last
  ensures[request] is(typed($sent, "common.MessageHandler"), *common.MessageBlockchainGetStorageDataRequest) && typed($sent, "common.MessageHandler").(*common.MessageBlockchainGetStorageDataRequest).Kind == common.BlockchainGetStorageDataRequest
  ensures[question] typed($sent, "common.MessageHandler").(*common.MessageBlockchainGetStorageDataRequest).AccountAddress == accountAddress
  ensures[question] typed($sent, "common.MessageHandler").(*common.MessageBlockchainGetStorageDataRequest).Index == index
  ensures[answer] result1 == nil ==> is(typed($last, "common.MessageHandler"), *common.MessageBlockchainGetStorageDataResponse) && typed($last, "common.MessageHandler").(*common.MessageBlockchainGetStorageDataResponse).ErrorMessage == "" && result0 == typed($last, "common.MessageHandler").(*common.MessageBlockchainGetStorageDataResponse).Data
func arwenpart.(*BlockchainHookGateway).GetBlockhash(g, nonce)
  requires g != nil && g.messenger != nil && ready(g.messenger.Messenger)
  modifies obj(g.messenger), $pipe, $inp, $nonce, $kind, $body, $sent, $last
  ensures[request] is(typed($sent, "common.MessageHandler"), *common.MessageBlockchainGetBlockhashRequest) && typed($sent, "common.MessageHandler").(*common.MessageBlockchainGetBlockhashRequest).Kind == common.BlockchainGetBlockhashRequest
  ensures[question] typed($sent, "common.MessageHandler").(*common.MessageBlockchainGetBlockhashRequest).Nonce == nonce
  ensures[answer] result1 == nil ==> is(typed($last, "common.MessageHandler"), *common.MessageBlockchainGetBlockhashResponse) && typed($last, "common.MessageHandler").(*common.MessageBlockchainGetBlockhashResponse).ErrorMessage == "" && result0 == typed($last, "common.MessageHandler").(*common.MessageBlockchainGetBlockhashResponse).Result
func arwenpart.(*BlockchainHookGateway).IsPayable(g, address)
  requires g != nil && g.messenger != nil && ready(g.messenger.Messenger)
  modifies obj(g.messenger), $pipe, $inp, $nonce, $kind, $body, $sent, $last
  ensures[request] is(typed($sent, "common.MessageHandler"), *common.MessageBlockchainIsPayableRequest) && typed($sent, "common.MessageHandler").(*common.MessageBlockchainIsPayableRequest).Kind == common.BlockchainIsPayableRequest
  ensures[question] typed($sent, "common.MessageHandler").(*common.MessageBlockchainIsPayableRequest).Address == address
  ensures[answer] result1 == nil ==> is(typed($last, "common.MessageHandler"), *common.MessageBlockchainIsPayableResponse) && typed($last, "common.MessageHandler").(*common.MessageBlockchainIsPayableResponse).ErrorMessage == "" && result0 == typed($last, "common.MessageHandler").(*common.MessageBlockchainIsPayableResponse).Result
func arwenpart.(*BlockchainHookGateway).GetShardOfAddress(g, address)
  requires g != nil && g.messenger != nil && ready(g.messenger.Messenger)
  modifies obj(g.messenger), $pipe, $inp, $nonce, $kind, $body, $sent, $last
  ensures[request] is(typed($sent, "common.MessageHandler"), *common.MessageBlockchainGetShardOfAddressRequest) && typed($sent, "common.MessageHandler").(*common.MessageBlockchainGetShardOfAddressRequest).Kind == common.BlockchainGetShardOfAddressRequest
  ensures[question] typed($sent, "common.MessageHandler").(*common.MessageBlockchainGetShardOfAddressRequest).Address == address
  ensures[answer] is(typed($last, "common.MessageHandler"), *common.MessageBlockchainGetShardOfAddressResponse) && result == typed($last, "common.MessageHandler").(*common.MessageBlockchainGetShardOfAddressResponse).Result || result == 0
func arwenpart.(*BlockchainHookGateway).IsSmartContract(g, address)
  requires g != nil && g.messenger != nil && ready(g.messenger.Messenger)
  modifies obj(g.messenger), $pipe, $inp, $nonce, $kind, $body, $sent, $last
  ensures[request] is(typed($sent, "common.MessageHandler"), *common.MessageBlockchainIsSmartContractRequest) && typed($sent, "common.MessageHandler").(*common.MessageBlockchainIsSmartContractRequest).Kind == common.BlockchainIsSmartContractRequest
  ensures[question] typed($sent, "common.MessageHandler").(*common.MessageBlockchainIsSmartContractRequest).Address == address
  ensures[answer] is(typed($last, "common.MessageHandler"), *common.MessageBlockchainIsSmartContractResponse) && result == typed($last, "common.MessageHandler").(*common.MessageBlockchainIsSmartContractResponse).Result || !result
func arwenpart.(*BlockchainHookGateway).GetUserAccount(g, address)
  requires g != nil && g.messenger != nil && ready(g.messenger.Messenger)
  modifies obj(g.messenger), $pipe, $inp, $nonce, $kind, $body, $sent, $last
  ensures[request] is(typed($sent, "common.MessageHandler"), *common.MessageBlockchainGetUserAccountRequest) && typed($sent, "common.MessageHandler").(*common.MessageBlockchainGetUserAccountRequest).Kind == common.BlockchainGetUserAccountRequest
  ensures[question] typed($sent, "common.MessageHandler").(*common.MessageBlockchainGetUserAccountRequest).Address == address
  ensures[answer] result1 == nil ==> is(typed($last, "common.MessageHandler"), *common.MessageBlockchainGetUserAccountResponse) && typed($last, "common.MessageHandler").(*common.MessageBlockchainGetUserAccountResponse).ErrorMessage == ""
func arwenpart.(*BlockchainHookGateway).GetESDTToken(g, address, tokenID, nonce)
  requires g != nil && g.messenger != nil && ready(g.messenger.Messenger)
  modifies obj(g.messenger), $pipe, $inp, $nonce, $kind, $body, $sent, $last
  ensures[request] is(typed($sent, "common.MessageHandler"), *common.MessageBlockchainGetESDTTokenRequest) && typed($sent, "common.MessageHandler").(*common.MessageBlockchainGetESDTTokenRequest).Kind == common.BlockchainGetESDTTokenRequest
  ensures[question] typed($sent, "common.MessageHandler").(*common.MessageBlockchainGetESDTTokenRequest).Address == address
  ensures[question] typed($sent, "common.MessageHandler").(*common.MessageBlockchainGetESDTTokenRequest).TokenID == tokenID
  ensures[question] typed($sent, "common.MessageHandler").(*common.MessageBlockchainGetESDTTokenRequest).Nonce == nonce
  ensures[answer] result1 == nil ==> is(typed($last, "common.MessageHandler"), *common.MessageBlockchainGetESDTTokenResponse) && typed($last, "common.MessageHandler").(*common.MessageBlockchainGetESDTTokenResponse).ErrorMessage == "" && result0 == typed($last, "common.MessageHandler").(*common.MessageBlockchainGetESDTTokenResponse).Result
func arwenpart.(*BlockchainHookGateway).GetSnapshot(g)
  requires g != nil && g.messenger != nil && ready(g.messenger.Messenger)
  modifies obj(g.messenger), $pipe, $inp, $nonce, $kind, $body, $sent, $last
  ensures[request] is(typed($sent, "common.MessageHandler"), *common.MessageBlockchainGetSnapshotRequest) && typed($sent, "common.MessageHandler").(*common.MessageBlockchainGetSnapshotRequest).Kind == common.BlockchainGetSnapshotRequest
  ensures[answer] is(typed($last, "common.MessageHandler"), *common.MessageBlockchainGetSnapshotResponse) && result == typed($last, "common.MessageHandler").(*common.MessageBlockchainGetSnapshotResponse).Result || result == 0
func arwenpart.(*BlockchainHookGateway).SaveCompiledCode(g, codeHash, code)
  requires g != nil && g.messenger != nil && ready(g.messenger.Messenger)
  modifies obj(g.messenger), $pipe, $inp, $nonce, $kind, $body, $sent, $last
  ensures[request] is(typed($sent, "common.MessageHandler"), *common.MessageBlockchainSaveCompiledCodeRequest) && typed($sent, "common.MessageHandler").(*common.MessageBlockchainSaveCompiledCodeRequest).Kind == common.BlockchainSaveCompiledCodeRequest
  ensures[question] typed($sent, "common.MessageHandler").(*common.MessageBlockchainSaveCompiledCodeRequest).CodeHash == codeHash
  ensures[question] typed($sent, "common.MessageHandler").(*common.MessageBlockchainSaveCompiledCodeRequest).Code == code
func arwenpart.(*BlockchainHookGateway).ClearCompiledCodes(g)
  requires g != nil && g.messenger != nil && ready(g.messenger.Messenger)
  modifies obj(g.messenger), $pipe, $inp, $nonce, $kind, $body, $sent, $last
  ensures[request] is(typed($sent, "common.MessageHandler"), *common.MessageBlockchainClearCompiledCodesRequest) && typed($sent, "common.MessageHandler").(*common.MessageBlockchainClearCompiledCodesRequest).Kind == common.BlockchainClearCompiledCodesRequest
func arwenpart.(*BlockchainHookGateway).GetBuiltinFunctionNames(g)
  requires g != nil && g.messenger != nil && ready(g.messenger.Messenger)
  modifies obj(g.messenger), $pipe, $inp, $nonce, $kind, $body, $sent, $last
  ensures[request] is(typed($sent, "common.MessageHandler"), *common.MessageBlockchainGetBuiltinFunctionNamesRequest) && typed($sent, "common.MessageHandler").(*common.MessageBlockchainGetBuiltinFunctionNamesRequest).Kind == common.BlockchainGetBuiltinFunctionNamesRequest
  ensures[answer] is(typed($last, "common.MessageHandler"), *common.MessageBlockchainGetBuiltinFunctionNamesResponse) && result == typed($last, "common.MessageHandler").(*common.MessageBlockchainGetBuiltinFunctionNamesResponse).Result || result == nil
func arwenpart.(*BlockchainHookGateway).GetCompiledCode(g, codeHash)
  requires g != nil && g.messenger != nil && ready(g.messenger.Messenger)
  modifies obj(g.messenger), $pipe, $inp, $nonce, $kind, $body, $sent, $last
  ensures[request] is(typed($sent, "common.MessageHandler"), *common.MessageBlockchainGetCompiledCodeRequest) && typed($sent, "common.MessageHandler").(*common.MessageBlockchainGetCompiledCodeRequest).Kind == common.BlockchainGetCompiledCodeRequest && typed($sent, "common.MessageHandler").(*common.MessageBlockchainGetCompiledCodeRequest).CodeHash == codeHash
  ensures[answer] result0 ==> is(typed($last, "common.MessageHandler"), *common.MessageBlockchainGetCompiledCodeResponse) && typed($last, "common.MessageHandler").(*common.MessageBlockchainGetCompiledCodeResponse).Found && result1 == typed($last, "common.MessageHandler").(*common.MessageBlockchainGetCompiledCodeResponse).Code

// ---- what the node answers: the reply carries the hook's answer to the question asked, and its error
func nodepart.(*NodePart).replyToBlockchainCurrentTimeStamp(p, request)
  requires p != nil && p.blockchain != nil
  ensures[reply] is(result, *common.MessageBlockchainCurrentTimeStampResponse) && result.(*common.MessageBlockchainCurrentTimeStampResponse) != nil && result.(*common.MessageBlockchainCurrentTimeStampResponse).Kind == common.BlockchainCurrentTimeStampResponse
  ensures[answer] result.(*common.MessageBlockchainCurrentTimeStampResponse).Result == chainNum(0)
func nodepart.(*NodePart).replyToBlockchainCurrentNonce(p, request)
  requires p != nil && p.blockchain != nil
  ensures[reply] is(result, *common.MessageBlockchainCurrentNonceResponse) && result.(*common.MessageBlockchainCurrentNonceResponse) != nil && result.(*common.MessageBlockchainCurrentNonceResponse).Kind == common.BlockchainCurrentNonceResponse
  ensures[answer] result.(*common.MessageBlockchainCurrentNonceResponse).Result == chainNum(1)
func nodepart.(*NodePart).replyToBlockchainCurrentRound(p, request)
  requires p != nil && p.blockchain != nil
  ensures[reply] is(result, *common.MessageBlockchainCurrentRoundResponse) && result.(*common.MessageBlockchainCurrentRoundResponse) != nil && result.(*common.MessageBlockchainCurrentRoundResponse).Kind == common.BlockchainCurrentRoundResponse
  ensures[answer] result.(*common.MessageBlockchainCurrentRoundResponse).Result == chainNum(2)
func nodepart.(*NodePart).replyToBlockchainCurrentEpoch(p, request)
  requires p != nil && p.blockchain != nil
  ensures[reply] is(result, *common.MessageBlockchainCurrentEpochResponse) && result.(*common.MessageBlockchainCurrentEpochResponse) != nil && result.(*common.MessageBlockchainCurrentEpochResponse).Kind == common.BlockchainCurrentEpochResponse
  ensures[answer] result.(*common.MessageBlockchainCurrentEpochResponse).Result == chainNum(3)
func nodepart.(*NodePart).replyToBlockchainLastTimeStamp(p, request)
  requires p != nil && p.blockchain != nil
  ensures[reply] is(result, *common.MessageBlockchainLastTimeStampResponse) && result.(*common.MessageBlockchainLastTimeStampResponse) != nil && result.(*common.MessageBlockchainLastTimeStampResponse).Kind == common.BlockchainLastTimeStampResponse
  ensures[answer] result.(*common.MessageBlockchainLastTimeStampResponse).Result == chainNum(4)
func nodepart.(*NodePart).replyToBlockchainLastNonce(p, request)
  requires p != nil && p.blockchain != nil
  ensures[reply] is(result, *common.MessageBlockchainLastNonceResponse) && result.(*common.MessageBlockchainLastNonceResponse) != nil && result.(*common.MessageBlockchainLastNonceResponse).Kind == common.BlockchainLastNonceResponse
  ensures[answer] result.(*common.MessageBlockchainLastNonceResponse).Result == chainNum(5)
func nodepart.(*NodePart).replyToBlockchainLastRound(p, request)
  requires p != nil && p.blockchain != nil
  ensures[reply] is(result, *common.MessageBlockchainLastRoundResponse) && result.(*common.MessageBlockchainLastRoundResponse) != nil && result.(*common.MessageBlockchainLastRoundResponse).Kind == common.BlockchainLastRoundResponse
  ensures[answer] result.(*common.MessageBlockchainLastRoundResponse).Result == chainNum(6)
func nodepart.(*NodePart).replyToBlockchainLastEpoch(p, request)
  requires p != nil && p.blockchain != nil
  ensures[reply] is(result, *common.MessageBlockchainLastEpochResponse) && result.(*common.MessageBlockchainLastEpochResponse) != nil && result.(*common.MessageBlockchainLastEpochResponse).Kind == common.BlockchainLastEpochResponse
  ensures[answer] result.(*common.MessageBlockchainLastEpochResponse).Result == chainNum(7)
func nodepart.(*NodePart).replyToBlockchainCurrentRandomSeed(p, request)
  requires p != nil && p.blockchain != nil
  ensures[reply] is(result, *common.MessageBlockchainCurrentRandomSeedResponse) && result.(*common.MessageBlockchainCurrentRandomSeedResponse) != nil && result.(*common.MessageBlockchainCurrentRandomSeedResponse).Kind == common.BlockchainCurrentRandomSeedResponse
  ensures[answer] str(result.(*common.MessageBlockchainCurrentRandomSeedResponse).Result) == chainBytes(0)
func nodepart.(*NodePart).replyToBlockchainLastRandomSeed(p, request)
  requires p != nil && p.blockchain != nil
  ensures[reply] is(result, *common.MessageBlockchainLastRandomSeedResponse) && result.(*common.MessageBlockchainLastRandomSeedResponse) != nil && result.(*common.MessageBlockchainLastRandomSeedResponse).Kind == common.BlockchainLastRandomSeedResponse
  ensures[answer] str(result.(*common.MessageBlockchainLastRandomSeedResponse).Result) == chainBytes(1)
func nodepart.(*NodePart).replyToBlockchainGetStateRootHash(p, request)
  requires p != nil && p.blockchain != nil
  ensures[reply] is(result, *common.MessageBlockchainGetStateRootHashResponse) && result.(*common.MessageBlockchainGetStateRootHashResponse) != nil && result.(*common.MessageBlockchainGetStateRootHashResponse).Kind == common.BlockchainGetStateRootHashResponse
  ensures[answer] str(result.(*common.MessageBlockchainGetStateRootHashResponse).Result) == chainBytes(2)
func nodepart.(*NodePart).replyToBlockchainGetBlockhash(p, request)
  requires p != nil && p.blockchain != nil && is(request, *common.MessageBlockchainGetBlockhashRequest) && request.(*common.MessageBlockchainGetBlockhashRequest) != nil
  let q = request.(*common.MessageBlockchainGetBlockhashRequest)
  ensures[reply] is(result, *common.MessageBlockchainGetBlockhashResponse) && result.(*common.MessageBlockchainGetBlockhashResponse) != nil && result.(*common.MessageBlockchainGetBlockhashResponse).Kind == common.BlockchainGetBlockhashResponse
  ensures[answer] str(result.(*common.MessageBlockchainGetBlockhashResponse).Result) == chainHash($chain, q.Nonce)
  ensures[error] result.(*common.MessageBlockchainGetBlockhashResponse).ErrorMessage == (chainHashErr($chain, q.Nonce) == 0 ? "" : errmsg(chainHashErr($chain, q.Nonce)))
func nodepart.(*NodePart).replyToBlockchainGetStorageData(p, request)
  requires p != nil && p.blockchain != nil && is(request, *common.MessageBlockchainGetStorageDataRequest) && request.(*common.MessageBlockchainGetStorageDataRequest) != nil
  let q = request.(*common.MessageBlockchainGetStorageDataRequest)
  ensures[reply] is(result, *common.MessageBlockchainGetStorageDataResponse) && result.(*common.MessageBlockchainGetStorageDataResponse) != nil && result.(*common.MessageBlockchainGetStorageDataResponse).Kind == common.BlockchainGetStorageDataResponse
  ensures[answer] str(result.(*common.MessageBlockchainGetStorageDataResponse).Data) == chainStorage($chain, str(q.AccountAddress), str(q.Index))
func nodepart.(*NodePart).replyToBlockchainGetShardOfAddress(p, request)
  requires p != nil && p.blockchain != nil && is(request, *common.MessageBlockchainGetShardOfAddressRequest) && request.(*common.MessageBlockchainGetShardOfAddressRequest) != nil
  let q = request.(*common.MessageBlockchainGetShardOfAddressRequest)
  ensures[reply] is(result, *common.MessageBlockchainGetShardOfAddressResponse) && result.(*common.MessageBlockchainGetShardOfAddressResponse) != nil && result.(*common.MessageBlockchainGetShardOfAddressResponse).Kind == common.BlockchainGetShardOfAddressResponse
  ensures[answer] result.(*common.MessageBlockchainGetShardOfAddressResponse).Result == chainShard(str(q.Address))
func nodepart.(*NodePart).replyToBlockchainIsSmartContract(p, request)
  requires p != nil && p.blockchain != nil && is(request, *common.MessageBlockchainIsSmartContractRequest) && request.(*common.MessageBlockchainIsSmartContractRequest) != nil
  let q = request.(*common.MessageBlockchainIsSmartContractRequest)
  ensures[reply] is(result, *common.MessageBlockchainIsSmartContractResponse) && result.(*common.MessageBlockchainIsSmartContractResponse) != nil && result.(*common.MessageBlockchainIsSmartContractResponse).Kind == common.BlockchainIsSmartContractResponse
  ensures[answer] result.(*common.MessageBlockchainIsSmartContractResponse).Result == chainIsSC($chain, str(q.Address))
func nodepart.(*NodePart).replyToBlockchainIsPayable(p, request)
  requires p != nil && p.blockchain != nil && is(request, *common.MessageBlockchainIsPayableRequest) && request.(*common.MessageBlockchainIsPayableRequest) != nil
  let q = request.(*common.MessageBlockchainIsPayableRequest)
  ensures[reply] is(result, *common.MessageBlockchainIsPayableResponse) && result.(*common.MessageBlockchainIsPayableResponse) != nil && result.(*common.MessageBlockchainIsPayableResponse).Kind == common.BlockchainIsPayableResponse
  ensures[answer] result.(*common.MessageBlockchainIsPayableResponse).Result == chainPayable($chain, str(q.Address))
  ensures[error] result.(*common.MessageBlockchainIsPayableResponse).ErrorMessage == (chainPayErr($chain, str(q.Address)) == 0 ? "" : errmsg(chainPayErr($chain, str(q.Address))))
func nodepart.(*NodePart).replyToBlockchainGetESDTToken(p, request)
  requires p != nil && p.blockchain != nil && is(request, *common.MessageBlockchainGetESDTTokenRequest) && request.(*common.MessageBlockchainGetESDTTokenRequest) != nil
  let q = request.(*common.MessageBlockchainGetESDTTokenRequest)
  ensures[reply] is(result, *common.MessageBlockchainGetESDTTokenResponse) && result.(*common.MessageBlockchainGetESDTTokenResponse) != nil && result.(*common.MessageBlockchainGetESDTTokenResponse).Kind == common.BlockchainGetESDTTokenResponse
  ensures[answer] result.(*common.MessageBlockchainGetESDTTokenResponse).Result == typed(chainToken($chain, str(q.Address), str(q.TokenID), q.Nonce), "*esdt.ESDigitalToken")
  ensures[error] result.(*common.MessageBlockchainGetESDTTokenResponse).ErrorMessage == (chainTokenErr($chain, str(q.Address), str(q.TokenID), q.Nonce) == 0 ? "" : errmsg(chainTokenErr($chain, str(q.Address), str(q.TokenID), q.Nonce)))
func nodepart.(*NodePart).replyToBlockchainGetSnapshot(p, request)
  requires p != nil && p.blockchain != nil
  ensures[reply] is(result, *common.MessageBlockchainGetSnapshotResponse) && result.(*common.MessageBlockchainGetSnapshotResponse) != nil && result.(*common.MessageBlockchainGetSnapshotResponse).Kind == common.BlockchainGetSnapshotResponse
  ensures[answer] result.(*common.MessageBlockchainGetSnapshotResponse).Result == chainSnapshot($chain)
ghost accRootHash(Int) Str
ghost accAddress(Int) Str
ghost accReward(Int) Int
ghost accUserName(Int) Str
iface vmcommon.UserAccountHandler.GetRootHash(a)
  pure
  ensures str(result) == accRootHash(ref(a))
iface vmcommon.UserAccountHandler.AddressBytes(a)
  pure
  ensures str(result) == accAddress(ref(a))
iface vmcommon.UserAccountHandler.GetDeveloperReward(a)
  pure
  ensures result != nil && big(result) == accReward(ref(a))
iface vmcommon.UserAccountHandler.GetUserName(a)
  pure
  ensures str(result) == accUserName(ref(a))
func nodepart.(*NodePart).replyToBlockchainGetUserAccount(p, request)
  requires p != nil && p.blockchain != nil && is(request, *common.MessageBlockchainGetUserAccountRequest) && request.(*common.MessageBlockchainGetUserAccountRequest) != nil
  let q = request.(*common.MessageBlockchainGetUserAccountRequest)
  ensures[reply] is(result, *common.MessageBlockchainGetUserAccountResponse) && result.(*common.MessageBlockchainGetUserAccountResponse) != nil && result.(*common.MessageBlockchainGetUserAccountResponse).Kind == common.BlockchainGetUserAccountResponse
  ensures[none] (chainErr($chain, str(q.Address)) != 0 || chainAcc($chain, str(q.Address)) == 0) ==> result.(*common.MessageBlockchainGetUserAccountResponse).Result == nil
  ensures[account] chainErr($chain, str(q.Address)) == 0 && result.(*common.MessageBlockchainGetUserAccountResponse).Result != nil ==> result.(*common.MessageBlockchainGetUserAccountResponse).Result.Nonce == accNonce(chainAcc($chain, str(q.Address))) && big(result.(*common.MessageBlockchainGetUserAccountResponse).Result.Balance) == accBalance(chainAcc($chain, str(q.Address))) && str(result.(*common.MessageBlockchainGetUserAccountResponse).Result.OwnerAddress) == accOwner(chainAcc($chain, str(q.Address))) && str(result.(*common.MessageBlockchainGetUserAccountResponse).Result.CodeHash) == accCodeHash(chainAcc($chain, str(q.Address))) && str(result.(*common.MessageBlockchainGetUserAccountResponse).Result.CodeMetadata) == accMetadata(chainAcc($chain, str(q.Address))) && str(result.(*common.MessageBlockchainGetUserAccountResponse).Result.RootHash) == accRootHash(chainAcc($chain, str(q.Address))) && str(result.(*common.MessageBlockchainGetUserAccountResponse).Result.Address) == accAddress(chainAcc($chain, str(q.Address))) && str(result.(*common.MessageBlockchainGetUserAccountResponse).Result.UserName) == accUserName(chainAcc($chain, str(q.Address))) && big(result.(*common.MessageBlockchainGetUserAccountResponse).Result.DeveloperReward) == accReward(chainAcc($chain, str(q.Address)))
  ensures[found] chainErr($chain, str(q.Address)) == 0 && chainAcc($chain, str(q.Address)) != 0 && !nilAcc(chainAcc($chain, str(q.Address))) ==> result.(*common.MessageBlockchainGetUserAccountResponse).Result != nil
  ensures[error] result.(*common.MessageBlockchainGetUserAccountResponse).ErrorMessage == (chainErr($chain, str(q.Address)) == 0 ? "" : errmsg(chainErr($chain, str(q.Address))))
func nodepart.(*NodePart).replyToBlockchainRevertToSnapshot(p, request)
  requires p != nil && p.blockchain != nil && is(request, *common.MessageBlockchainRevertToSnapshotRequest) && request.(*common.MessageBlockchainRevertToSnapshotRequest) != nil
  let q = request.(*common.MessageBlockchainRevertToSnapshotRequest)
  modifies $chain
  ensures[reply] is(result, *common.MessageBlockchainRevertToSnapshotResponse) && result.(*common.MessageBlockchainRevertToSnapshotResponse).Kind == common.BlockchainRevertToSnapshotResponse
  ensures[reverted] $chain == chainAt(old($chain), q.Snapshot)
