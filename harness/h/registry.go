// Package h holds the harnesses: functions that set up symbolic inputs, call
// the code under test and state the properties.
package h

import _ "verif/harness/model"

// All lists the harnesses by name, for native replay.
var All = map[string]func(){}

func reg(name string, f func()) { All[name] = f }
