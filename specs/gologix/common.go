package gologix

import "errors"

var errVC = errors.New("vc: injected error")
