package main

import (
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/enginekit/message"
	"github.com/dogmatiq/testkit"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"
)

// The message types used by every scenario. Each has a unique key (Key), which
// identifies the message in the trace, and a body, which only matters to the
// message comparison of the test layer.

type (
	x0 struct{}
	x1 struct{}
	x2 struct{}
	x3 struct{}
	x4 struct{}
	x5 struct{}
)

// Cmd is a command implemented by a struct value.
type Cmd[X any] struct {
	Key, Body, Bad string
	Box            any // the body again
	Notes          any // more of the same, if reports are looked at
}

// Ev is an event implemented by a struct value.
type Ev[X any] struct {
	Key, Body, Bad string
	Box            any // the body again
	Notes          any // more of the same, if reports are looked at
}

// Tm is a timeout implemented by a struct value.
type Tm[X any] struct {
	Key, Body, Bad string
}

// PCmd is a command implemented by a pointer.
type PCmd struct{ Key, Body, Bad string }

// PEv is an event implemented by a pointer.
type PEv struct{ Key, Body, Bad string }

// PTm is a timeout implemented by a pointer.
type PTm struct{ Key, Body, Bad string }

// notes returns many lines of text that depend on a message's body.
func notes(body string) any {
	if !withRep {
		return nil
	}
	var n [20]string
	for i := range n {
		n[i] = fmt.Sprintf("note %d", i)
	}
	n[10] += " about " + body
	return n
}

// nearly returns a message that looks like m but is not equal to it.
func nearly(m dogma.Message) dogma.Message {
	v := reflect.New(reflect.TypeOf(m)).Elem()
	v.Set(reflect.ValueOf(m))
	if v.Kind() == reflect.Struct {
		if f := v.FieldByName("Box"); f.IsValid() {
			f.Set(reflect.ValueOf(boxed(f.Interface().(string))))
			return v.Interface().(dogma.Message)
		}
	}
	return mkMsg(typeOf(m), "near", fieldOf(m, "Body"), "")
}

type boxed string

func bad(s string) error {
	if s == "" {
		return nil
	}
	return errors.New(s)
}

func (m Cmd[X]) MessageDescription() string                  { return "cmd " + m.Key }
func (m Cmd[X]) Validate(dogma.CommandValidationScope) error { return bad(m.Bad) }
func (m Ev[X]) MessageDescription() string                   { return "event " + m.Key }
func (m Ev[X]) Validate(dogma.EventValidationScope) error    { return bad(m.Bad) }
func (m Tm[X]) MessageDescription() string                   { return "timeout " + m.Key }
func (m Tm[X]) Validate(dogma.TimeoutValidationScope) error  { return bad(m.Bad) }
func (m *PCmd) MessageDescription() string                   { return "cmd " + m.Key }
func (m *PCmd) Validate(dogma.CommandValidationScope) error  { return bad(m.Bad) }
func (m *PEv) MessageDescription() string                    { return "event " + m.Key }
func (m *PEv) Validate(dogma.EventValidationScope) error     { return bad(m.Bad) }
func (m *PTm) MessageDescription() string                    { return "timeout " + m.Key }
func (m *PTm) Validate(dogma.TimeoutValidationScope) error   { return bad(m.Bad) }

// msgType is the harness's description of one message type.
type msgType struct {
	name string
	kind string // "c", "e", "t"
	mk   func(key, body, bad string) dogma.Message
	cons func() dogma.Route // nil for timeouts
	prod func() dogma.Route
	rt   reflect.Type

	// Expectations about messages of this type.
	typ   func() []testkit.Expectation
	match func(only bool, pred func(dogma.Message) error) testkit.Expectation
}

func cmdExp[T dogma.Command](t *msgType) *msgType {
	t.typ = func() []testkit.Expectation {
		return []testkit.Expectation{testkit.ToExecuteCommandType[T](), testkit.ToExecuteCommandOfType(t.mk("x", "y", "").(dogma.Command))}
	}
	t.match = func(only bool, pred func(dogma.Message) error) testkit.Expectation {
		f := func(m T) error { return pred(m) }
		if only {
			return testkit.ToOnlyExecuteCommandsMatching(f)
		}
		return testkit.ToExecuteCommandMatching(f)
	}
	return t
}

func evExp[T dogma.Event](t *msgType) *msgType {
	t.typ = func() []testkit.Expectation {
		return []testkit.Expectation{testkit.ToRecordEventType[T](), testkit.ToRecordEventOfType(t.mk("x", "y", "").(dogma.Event))}
	}
	t.match = func(only bool, pred func(dogma.Message) error) testkit.Expectation {
		f := func(m T) error { return pred(m) }
		if only {
			return testkit.ToOnlyRecordEventsMatching(f)
		}
		return testkit.ToRecordEventMatching(f)
	}
	return t
}

func cmdType[X any](name string) *msgType {
	return cmdExp[Cmd[X]](&msgType{name: name, kind: "c",
		mk:   func(k, b, x string) dogma.Message { return Cmd[X]{k, b, x, b, notes(b)} },
		cons: func() dogma.Route { return dogma.HandlesCommand[Cmd[X]]() },
		prod: func() dogma.Route { return dogma.ExecutesCommand[Cmd[X]]() },
		rt:   reflect.TypeOf(Cmd[X]{})})
}

func evType[X any](name string) *msgType {
	return evExp[Ev[X]](&msgType{name: name, kind: "e",
		mk:   func(k, b, x string) dogma.Message { return Ev[X]{k, b, x, b, notes(b)} },
		cons: func() dogma.Route { return dogma.HandlesEvent[Ev[X]]() },
		prod: func() dogma.Route { return dogma.RecordsEvent[Ev[X]]() },
		rt:   reflect.TypeOf(Ev[X]{})})
}

func tmType[X any](name string) *msgType {
	return &msgType{name: name, kind: "t",
		mk:   func(k, b, x string) dogma.Message { return Tm[X]{k, b, x} },
		prod: func() dogma.Route { return dogma.SchedulesTimeout[Tm[X]]() },
		rt:   reflect.TypeOf(Tm[X]{})}
}

var allTypes = []*msgType{
	cmdType[x0]("C0"), cmdType[x1]("C1"), cmdType[x2]("C2"), cmdType[x3]("C3"), cmdType[x4]("C4"),
	cmdExp[*PCmd](&msgType{name: "C5", kind: "c",
		mk:   func(k, b, x string) dogma.Message { return &PCmd{k, b, x} },
		cons: func() dogma.Route { return dogma.HandlesCommand[*PCmd]() },
		prod: func() dogma.Route { return dogma.ExecutesCommand[*PCmd]() },
		rt:   reflect.TypeOf(&PCmd{})}),
	evType[x0]("E0"), evType[x1]("E1"), evType[x2]("E2"), evType[x3]("E3"), evType[x4]("E4"),
	evExp[*PEv](&msgType{name: "E5", kind: "e",
		mk:   func(k, b, x string) dogma.Message { return &PEv{k, b, x} },
		cons: func() dogma.Route { return dogma.HandlesEvent[*PEv]() },
		prod: func() dogma.Route { return dogma.RecordsEvent[*PEv]() },
		rt:   reflect.TypeOf(&PEv{})}),
	tmType[x0]("T0"), tmType[x1]("T1"), tmType[x2]("T2"),
	{name: "T3", kind: "t",
		mk:   func(k, b, x string) dogma.Message { return &PTm{k, b, x} },
		prod: func() dogma.Route { return dogma.SchedulesTimeout[*PTm]() },
		rt:   reflect.TypeOf(&PTm{})},
}

// Protocol buffers messages, which are only used by the test layer.
var pbTypes = []*msgType{
	cmdExp[PbCmd](&msgType{name: "C6", kind: "c",
		mk:   func(k, b, x string) dogma.Message { return PbCmd{mkPb(k, b, x)} },
		cons: func() dogma.Route { return dogma.HandlesCommand[PbCmd]() },
		prod: func() dogma.Route { return dogma.ExecutesCommand[PbCmd]() },
		rt:   reflect.TypeOf(PbCmd{})}),
	evExp[PbEv](&msgType{name: "E6", kind: "e",
		mk:   func(k, b, x string) dogma.Message { return PbEv{mkPb(k, b, x)} },
		cons: func() dogma.Route { return dogma.HandlesEvent[PbEv]() },
		prod: func() dogma.Route { return dogma.RecordsEvent[PbEv]() },
		rt:   reflect.TypeOf(PbEv{})}),
}

// Any command and any event.
var anyTypes = map[string]*msgType{
	"C*": cmdExp[dogma.Command](&msgType{name: "C*", kind: "c"}),
	"E*": evExp[dogma.Event](&msgType{name: "E*", kind: "e"}),
}

// PbCmd is a command that is a protocol buffers message.
type PbCmd struct{ *wrapperspb.StringValue }

// PbEv is an event that is a protocol buffers message.
type PbEv struct{ *wrapperspb.StringValue }

func (m PbCmd) MessageDescription() string                  { return "cmd " + keyOf(m) }
func (m PbCmd) Validate(dogma.CommandValidationScope) error { return bad(fieldOf(m, "Bad")) }
func (m PbEv) MessageDescription() string                   { return "event " + keyOf(m) }
func (m PbEv) Validate(dogma.EventValidationScope) error    { return bad(fieldOf(m, "Bad")) }

var pbCount atomic.Int64

func mkPb(k, b, x string) *wrapperspb.StringValue {
	v := wrapperspb.String(k + "\x00" + b + "\x00" + x)
	if pbCount.Add(1)%2 == 0 {
		// Equal messages need not have equal memory representations.
		_, _ = proto.Marshal(v)
	}
	return v
}

var (
	typeByName = map[string]*msgType{}
	typeByRT   = map[reflect.Type]*msgType{}

	typeByString = map[string]string{}
)

func init() {
	for _, t := range append(append([]*msgType{}, allTypes...), pbTypes...) {
		typeByName[t.name] = t
		typeByRT[t.rt] = t
		typeByString[message.TypeOf(t.mk("", "", "")).String()] = t.name
	}
	typeStrings()
}

func typesOfKind(k string) []string {
	var r []string
	for _, t := range allTypes {
		if t.kind == k {
			r = append(r, t.name)
		}
	}
	sort.Strings(r)
	return r
}

func mkMsg(typ, key, body, bad string) dogma.Message {
	t := typeByName[typ]
	if t == nil {
		panic(fmt.Sprintf("harness: unknown message type %q", typ))
	}
	return t.mk(key, body, bad)
}

func typeOf(m dogma.Message) string {
	if t := typeByRT[reflect.TypeOf(m)]; t != nil {
		return t.name
	}
	return fmt.Sprintf("?%T", m)
}

func fieldOf(m dogma.Message, f string) string {
	if m == nil {
		return "?nil"
	}
	var pb *wrapperspb.StringValue
	switch x := m.(type) {
	case PbCmd:
		pb = x.StringValue
	case PbEv:
		pb = x.StringValue
	}
	if pb != nil {
		parts := strings.Split(pb.Value, "\x00")
		return map[string]string{"Key": parts[0], "Body": parts[1], "Bad": parts[2]}[f]
	}
	v := reflect.Indirect(reflect.ValueOf(m))
	if v.Kind() != reflect.Struct {
		return "?"
	}
	x := v.FieldByName(f)
	if !x.IsValid() {
		return "?"
	}
	return x.String()
}

func keyOf(m dogma.Message) string { return fieldOf(m, "Key") }
