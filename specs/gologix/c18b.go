package gologix

// C18: the keep-alive can be stopped by whoever, whenever and however often.

//vc:verify (*gologix.Client).KeepAliveCancel
//vc:verify (*gologix.Client).stopKeepAlive
func VC_C18_keepalive_cancel(started, auto, force, again bool) {
	cl, _ := vcReplyClient(0x70, nil)
	cl.KeepAliveAutoStart = auto
	var ch chan struct{}
	if started {
		ch = make(chan struct{})
		cl.cancel_keepalive = ch
	}
	err := cl.KeepAliveCancel(force)
	vcEnsures("an automatic keep-alive is stopped only by force", (err == nil) == (!auto || force))
	if again {
		err = cl.KeepAliveCancel(force)
		vcEnsures("it may be stopped again", (err == nil) == (!auto || force))
	}
	stopped := false
	if started {
		select {
		case _, ok := <-ch:
			stopped = !ok
		default:
		}
	}
	vcEnsures("the keep-alive is told to stop", !started || auto && !force || stopped)
}
