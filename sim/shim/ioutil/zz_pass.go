// Code generated by passgen. DO NOT EDIT.

package ioutil

import real "io/ioutil"

var Discard = real.Discard
var NopCloser = real.NopCloser
var ReadAll = real.ReadAll
