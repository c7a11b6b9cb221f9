// Checks of the definitions everything else is built on: errors, flags, disk
// geometries, and the conversions of the Unix V6 file system.
package core

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"strings"
	"testing"

	"diskoverif/pbt"

	"github.com/dargueta/disko"
	"github.com/hashicorp/go-multierror"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { pbt.Main(m) }

var sentinels = map[string]disko.DriverError{
	"ErrAlreadyInProgress":      disko.ErrAlreadyInProgress,
	"ErrArgumentOutOfRange":     disko.ErrArgumentOutOfRange,
	"ErrBlockDeviceRequired":    disko.ErrBlockDeviceRequired,
	"ErrBusy":                   disko.ErrBusy,
	"ErrCrossDeviceLink":        disko.ErrCrossDeviceLink,
	"ErrDirectoryNotEmpty":      disko.ErrDirectoryNotEmpty,
	"ErrDiskQuotaExceeded":      disko.ErrDiskQuotaExceeded,
	"ErrExists":                 disko.ErrExists,
	"ErrFileDescriptorBadState": disko.ErrFileDescriptorBadState,
	"ErrFileSystemCorrupted":    disko.ErrFileSystemCorrupted,
	"ErrFileTooLarge":           disko.ErrFileTooLarge,
	"ErrInvalidArgument":        disko.ErrInvalidArgument,
	"ErrInvalidFileDescriptor":  disko.ErrInvalidFileDescriptor,
	"ErrInvalidFileSystem":      disko.ErrInvalidFileSystem,
	"ErrIOFailed":               disko.ErrIOFailed,
	"ErrIsADirectory":           disko.ErrIsADirectory,
	"ErrLinkCycleDetected":      disko.ErrLinkCycleDetected,
	"ErrNameTooLong":            disko.ErrNameTooLong,
	"ErrNoDevice":               disko.ErrNoDevice,
	"ErrNoSpaceOnDevice":        disko.ErrNoSpaceOnDevice,
	"ErrNotADirectory":          disko.ErrNotADirectory,
	"ErrNotFound":               disko.ErrNotFound,
	"ErrNotImplemented":         disko.ErrNotImplemented,
	"ErrNotPermitted":           disko.ErrNotPermitted,
	"ErrNotSupported":           disko.ErrNotSupported,
	"ErrPermissionDenied":       disko.ErrPermissionDenied,
	"ErrReadOnlyFileSystem":     disko.ErrReadOnlyFileSystem,
	"ErrResultOutOfRange":       disko.ErrResultOutOfRange,
	"ErrTooManyLinks":           disko.ErrTooManyLinks,
	"ErrTooManyOpenFiles":       disko.ErrTooManyOpenFiles,
	"ErrTooManyUsers":           disko.ErrTooManyUsers,
}

// listError can't be compared with ==, which errors.Is must not stumble over.
type listError []string

func (e listError) Error() string { return strings.Join(e, "+") }

// node is an error built by some history, and what it must be.
type node struct {
	err     error
	text    string
	is      map[string]error
	path    *fs.PathError // what errors.As must find
	history string
}

func union(a, b map[string]error) map[string]error {
	u := map[string]error{}
	for k, v := range a {
		u[k] = v
	}
	for k, v := range b {
		u[k] = v
	}
	return u
}

func checkNode(c *pbt.C, n *node, others map[string]error) {
	got := n.err.Error()
	if got != n.text {
		c.Fatalf("%s says %q, expected %q", n.history, got, n.text)
	}
	for _, name := range pbt.SortedKeys(n.is) {
		if !errors.Is(n.err, n.is[name]) {
			c.Fatalf("%s isn't %s", n.history, name)
		}
	}
	for _, name := range pbt.SortedKeys(others) {
		if _, ok := n.is[name]; !ok && errors.Is(n.err, others[name]) {
			c.Fatalf("%s is %s but has nothing to do with it", n.history, name)
		}
	}
	if n.path != nil {
		var found *fs.PathError
		if !errors.As(n.err, &found) {
			c.Fatalf("%s contains a *fs.PathError, but errors.As doesn't find it", n.history)
		}
	}
}

func TestE01_ErrorChains(t *testing.T) {
	pbt.Check(t, 20000, 1000000, "a random history of up to 12 errors, each made from a sentinel, NewError, or earlier ones "+
		"with WithMessage, Wrap (also of foreign, nested and joined errors) and CastToDriverError; non-trivial: at least "+
		"3 steps, one of them Wrap",
		func(c *pbt.C) {
			others := map[string]error{}
			for name, err := range sentinels {
				others[name] = err
			}
			names := pbt.SortedKeys(sentinels)
			messages := rapid.SampledFrom([]string{"", "x", "while reading", "a: b", "100%", "%s", "%!d(string)", "zwölf", "\n",
				"Is a directory", "No such file or directory"})
			drivers := []*node{} // the DriverErrors
			all := []*node{}
			steps := pbt.Int(1, 12).Draw(c.T, "steps")
			wraps, foreign := 0, 0
			addForeign := func() *node {
				foreign++
				name := fmt.Sprintf("foreign%d", foreign)
				msg := messages.Draw(c.T, "message")
				n := &node{text: msg, is: map[string]error{}, history: name}
				switch pbt.Int(0, 6).Draw(c.T, "kind") {
				case 0:
					n.err = errors.New(msg)
					n.is[name] = n.err
				case 1:
					n.err, n.text = io.ErrUnexpectedEOF, io.ErrUnexpectedEOF.Error()
					n.is["io.ErrUnexpectedEOF"] = n.err
					others["io.ErrUnexpectedEOF"] = n.err
				case 2:
					n.path = &fs.PathError{Op: "open", Path: msg, Err: fs.ErrNotExist}
					n.err, n.text = n.path, n.path.Error()
					n.is[name] = n.err
					n.is["fs.ErrNotExist"] = fs.ErrNotExist
					others["fs.ErrNotExist"] = fs.ErrNotExist
				case 3:
					n.err = listError{msg}
				case 4: // wraps one of ours
					if len(all) > 0 {
						m := all[pbt.Int(0, len(all)-1).Draw(c.T, "of")]
						n.err = fmt.Errorf("outer %w", m.err)
						n.is = union(m.is, map[string]error{name: n.err})
						n.path = m.path
						n.text = n.err.Error()
						n.history += "(" + m.history + ")"
					} else {
						n.err = errors.New(msg)
						n.is[name] = n.err
					}
				case 5: // joins two
					a, b := errors.New(msg), errors.New("second")
					n.err = errors.Join(a, b)
					n.text = n.err.Error()
					n.is[name+"a"], n.is[name+"b"] = a, b
					others[name+"a"], others[name+"b"] = a, b
				case 6: // a list of errors, some of them ours
					list := &multierror.Error{ErrorFormat: func([]error) string { return msg }}
					for i := pbt.Int(1, 5).Draw(c.T, "errors"); i > 0; i-- {
						e := errors.New("part")
						if len(all) > 0 && rapid.Bool().Draw(c.T, "ours") {
							m := all[pbt.Int(0, len(all)-1).Draw(c.T, "of")]
							e = fmt.Errorf("part %w", m.err)
							n.is = union(n.is, m.is)
							if m.path != nil {
								n.path = m.path
							}
						}
						part := fmt.Sprintf("%s.%d", name, i)
						n.is[part], others[part] = e, e
						list.Errors = append(list.Errors, e)
					}
					n.err = list
					c.Label("list of errors")
				}
				if e, ok := n.is[name]; ok {
					others[name] = e
				}
				all = append(all, n)
				return n
			}
			add := func(n *node) {
				drivers = append(drivers, n)
				all = append(all, n)
			}
			for i := 0; i < steps; i++ {
				op := pbt.Int(0, 9).Draw(c.T, "op")
				if len(drivers) == 0 {
					op = pbt.Int(0, 1).Draw(c.T, "first")
				}
				switch {
				case op == 0:
					name := names[pbt.Int(0, len(names)-1).Draw(c.T, "sentinel")]
					err := sentinels[name]
					add(&node{err: err, text: err.Error(), is: map[string]error{name: err}, history: name})
				case op == 1:
					msg := fmt.Sprintf("custom %d", i)
					if pbt.Int(0, 19).Draw(c.T, "long") == 0 {
						msg += strings.Repeat(" and so on", pbt.Int(1, 1000).Draw(c.T, "how long"))
					}
					err := disko.NewError(msg)
					others[msg] = err
					add(&node{err: err, text: msg, is: map[string]error{msg: err}, history: "NewError"})
				case op <= 4:
					n := drivers[pbt.Int(0, len(drivers)-1).Draw(c.T, "of")]
					msg := messages.Draw(c.T, "message")
					err := n.err.(disko.DriverError).WithMessage(msg)
					m := &node{err: err, path: n.path, history: fmt.Sprintf("%s.WithMessage(%q)", n.history, msg)}
					m.is = union(n.is, map[string]error{m.history: err})
					m.text = n.text + ": " + msg
					add(m)
				case op <= 7:
					wraps++
					n := drivers[pbt.Int(0, len(drivers)-1).Draw(c.T, "of")]
					var w *node
					if pbt.Int(0, 1).Draw(c.T, "wrap what") == 0 {
						w = addForeign()
					} else {
						w = all[pbt.Int(0, len(all)-1).Draw(c.T, "wrapped")]
					}
					err := n.err.(disko.DriverError).Wrap(w.err)
					m := &node{err: err, path: n.path, history: fmt.Sprintf("%s.Wrap(%s)", n.history, w.history)}
					m.is = union(n.is, w.is)
					if w.path != nil {
						m.path = w.path
					}
					m.text = n.text + ": " + w.text
					add(m)
				case op == 8:
					n := drivers[pbt.Int(0, len(drivers)-1).Draw(c.T, "of")]
					err := disko.CastToDriverError(n.err)
					if err != n.err {
						c.Fatalf("CastToDriverError changed %s, which is a DriverError already", n.history)
					}
				default:
					n := addForeign()
					err := disko.CastToDriverError(n.err)
					if err == nil {
						c.Fatalf("CastToDriverError(%s) = nil", n.history)
					}
					add(&node{err: err, text: n.text, is: n.is, path: n.path, history: "Cast(" + n.history + ")"})
				}
			}
			if got := disko.CastToDriverError(nil); got != nil {
				c.Fatalf("CastToDriverError(nil) = %#v", got)
			}
			// Look at everything again at the end: no error may change because others are derived from it.
			c.NonTrivial(len(drivers) >= 3 && wraps > 0)
			c.LabelIf(wraps > 1, "several wraps")
			for _, n := range all {
				c.AddDesc("%s; ", n.history)
				checkNode(c, n, others)
			}
		})
}

func TestE01_SentinelsDiffer(t *testing.T) {
	names := pbt.SortedKeys(sentinels)
	pbt.Check(t, 12000, 125000, "pairs of sentinel errors; non-trivial: two different ones",
		func(c *pbt.C) {
			a := names[pbt.Int(0, len(names)-1).Draw(c.T, "a")]
			b := names[pbt.Int(0, len(names)-1).Draw(c.T, "b")]
			c.Describe("%s, %s", a, b)
			c.NonTrivial(a != b)
			if got := errors.Is(sentinels[a], sentinels[b]); got != (a == b) {
				c.Fatalf("errors.Is(%s, %s) = %v", a, b, got)
			}
			if a != b && sentinels[a].Error() == sentinels[b].Error() {
				c.Fatalf("%s and %s both say %q", a, b, sentinels[a].Error())
			}
		})
}
