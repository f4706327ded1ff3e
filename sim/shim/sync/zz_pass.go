// Code generated by passgen. DO NOT EDIT.

package sync

import real "sync"

type Locker = real.Locker
type Map = real.Map
