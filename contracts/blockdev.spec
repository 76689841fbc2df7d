// The pool of workers answering block device commands.
package blockdev

iface github.com/tnarg/go-tcmu.SCSICmdHandler.HandleCommand(h, cmd) (rsp, err)
  modifies cmd.Buf, anyelems([]byte)
  ensures ref(cmd.Buf) == old(ref(cmd.Buf)) || fresh(cmd.Buf)
functype blockdev.cmdPoolReq.done(f)

func (*blockdev.CmdPool).worker(p, bufferSize)
  props C28
  requires p != nil && p.wg != nil && bufferSize >= 0 && bufferSize <= 1073741824
  maypanic
  noarith
  shared gvar(others)
  modifies gvar(others), anyelems([]byte), anyfield(tcmu.SCSICmd.Buf)
  invariant [b []byte] fresh(b)
  invariant recvs(*cmdPoolReq) - pre(recvs(*cmdPoolReq)) == sends() - pre(sends())
  invariant calls(HandleCommand) - pre(calls(HandleCommand)) == sends() - pre(sends())
  invariant calls(done) - pre(calls(done)) == sends() - pre(sends())
  before HandleCommand [command] call_cmd == received(*cmdPoolReq).cmd && call_h == received(*cmdPoolReq).h
  before HandleCommand [buffer] fresh(call_cmd.Buf)
  before HandleCommand [once] calls(HandleCommand) - old(calls(HandleCommand)) == recvs(*cmdPoolReq) - old(recvs(*cmdPoolReq)) - 1
  onsend [answer] ch == received(*cmdPoolReq).out && msg == last("github.com/tnarg/go-tcmu.SCSICmdHandler.HandleCommand", rsp) && last("github.com/tnarg/go-tcmu.SCSICmdHandler.HandleCommand", err) == nil
  onsend [once] sends() - old(sends()) == recvs(*cmdPoolReq) - old(recvs(*cmdPoolReq)) - 1
  before done [answered] sends() - old(sends()) == recvs(*cmdPoolReq) - old(recvs(*cmdPoolReq)) && call_f == received(*cmdPoolReq).done
  ensures [answered] sends() - old(sends()) == recvs(*cmdPoolReq) - old(recvs(*cmdPoolReq)) && calls(done) - old(calls(done)) == sends() - old(sends())
  ensures [leaves] dones(p.wg) == old(dones(p.wg)) + 1

// One goroutine per device passes its commands on; every request is counted before it is handed over.
func (*blockdev.CmdPool).DevReady$1$1(h, in, out)
  props C28
  requires *p != nil && (*p).wg != nil && (*p).requests != nil && in != nil && out != nil
  noarith
  shared gvar(others)
  modifies gvar(others)
  invariant adds() - pre(adds()) == sends() - pre(sends())
  invariant recvs(*tcmu.SCSICmd) - pre(recvs(*tcmu.SCSICmd)) == sends() - pre(sends())
  invariant [w *sync.WaitGroup] adds() == pre(adds()) || lastadded() == ref(w)
  onsend [request] ch == (*p).requests && msg.cmd == received(*tcmu.SCSICmd) && msg.h == h && msg.out == out
  onsend [counted] notifies(msg.done) == lastadded() && adds() - old(adds()) == sends() - old(sends()) + 1
  onsend [once] sends() - old(sends()) == recvs(*tcmu.SCSICmd) - old(recvs(*tcmu.SCSICmd)) - 1
  onclose [answered] ch == out && (adds() == old(adds()) || settled(lastadded()))
  ensures [leaves] dones((*p).wg) == old(dones((*p).wg)) + 1

func (*blockdev.CmdPool).DevReady$1(in, out) (err)
  props C28
  requires *p != nil && (*p).wg != nil
  modifies spawned()
  spawn [joined] adds((*p).wg) == old(adds((*p).wg)) + 1 && spawn_in == in && spawn_out == out && spawn_h == *h
  ensures [ready] err == nil && spawned() == old(spawned()) + 1

func blockdev.NewCmdPool(poolSize, bufferSize) (p)
  props C28
  requires bufferSize >= 0 && bufferSize <= 1073741824
  modifies spawned()
  invariant [i int] spawned() == pre(spawned()) + i
  invariant [i int] i <= max(poolSize, 0)
  invariant [i int] adds() == pre(adds()) + i
  spawn [joined] adds() - old(adds()) == spawned() - old(spawned()) + 1 && lastadded() == ref(spawn_p.wg) && spawn_bufferSize == bufferSize
  ensures [workers] p != nil && spawned() == old(spawned()) + max(poolSize, 0)
  ensures [open] p.wg != nil && p.requests != nil && p.done != nil && ref(p.requests) != ref(p.done)

func (*blockdev.CmdPool).Close(p) (err)
  props C28
  requires p != nil && p.wg != nil && p.done != nil && p.requests != nil && ref(p.done) != ref(p.requests)
  before WaitGroup.Wait [stopped] closes(p.done) == old(closes(p.done)) + 1
  onclose [order] ref(ch) == ref(p.requests) ==> waits(p.wg) == old(waits(p.wg)) + 1
  ensures [closed] err == nil && waits(p.wg) == old(waits(p.wg)) + 1

extern (*github.com/tnarg/go-tcmu.SCSICmd).Command(cmd) (r)
  pure
extern (*github.com/tnarg/go-tcmu.SCSICmd).NotHandled(cmd) (r)
extern github.com/tnarg/go-tcmu.EmulateInquiry(cmd, inq) (r, err)
  modifies cmd.Buf
extern github.com/tnarg/go-tcmu.EmulateTestUnitReady(cmd) (r, err)
  modifies cmd.Buf
extern github.com/tnarg/go-tcmu.EmulateServiceActionIn(cmd) (r, err)
  modifies cmd.Buf
extern github.com/tnarg/go-tcmu.EmulateModeSense(cmd, wce) (r, err)
  modifies cmd.Buf
extern github.com/tnarg/go-tcmu.EmulateModeSelect(cmd, wce) (r, err)
  modifies cmd.Buf
extern github.com/tnarg/go-tcmu.EmulateRead(cmd, r) (rsp, err)
  modifies cmd.Buf, anyelems([]byte)

// Reads are served from the device's object; every answer is about the command given.
func (blockdev.readerAtCmdHandler).HandleCommand(h, cmd) (rsp, err)
  props C28
  requires cmd != nil
  modifies cmd.Buf, anyelems([]byte)
  before EmulateRead [object] call_cmd == cmd && call_r == h.R
  before EmulateInquiry [command] call_cmd == cmd
  before EmulateTestUnitReady [command] call_cmd == cmd
  before EmulateServiceActionIn [command] call_cmd == cmd
  before EmulateModeSense [read-only] call_cmd == cmd && !call_wce
  before EmulateModeSelect [read-only] call_cmd == cmd && !call_wce
  before NotHandled [command] call_cmd == cmd
  ensures [read] calls(EmulateRead) == old(calls(EmulateRead)) + ite(cmd.Command() == 8 || cmd.Command() == 40 || cmd.Command() == 168 || cmd.Command() == 136, 1, 0)
  ensures [served] calls(EmulateRead) - old(calls(EmulateRead)) == 1 ==> rsp == last("github.com/tnarg/go-tcmu.EmulateRead", rsp) && err == last("github.com/tnarg/go-tcmu.EmulateRead", err)
