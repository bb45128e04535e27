//go:build verif

package restruct

import (
	"encoding/binary"
	"errors"
	"fmt"
	"reflect"
)

// ---- the entry points: whatever goes wrong below them is an error

//gover:spec panicError
//gover:props C12
//gover:text
func specPanicError(r interface{}) error {
	if err, ok := r.(error); ok {
		return err
	}
	return fmt.Errorf("%v", r)
}

// gvRecover is what an entry point does with a panic.
func gvRecover(r interface{}, err *error) {
	if r != nil {
		*err = panicError(r)
	}
}

func gvTop(v interface{}) (field, reflect.Value) {
	val := reflect.ValueOf(v)
	if val.Kind() == reflect.Ptr {
		val = val.Elem()
	}
	return fieldFromType(val.Type()), val
}

//gover:spec Unpack
//gover:props C12 C02 C07
//gover:nopanic
func specUnpack(data []byte, order binary.ByteOrder, v interface{}) (err error) {
	defer func() { gvRecover(recover(), &err) }()
	f, val := gvTop(v)
	if _, ok := val.Interface().(Unpacker); !ok && !val.CanSet() {
		return errors.New("cannot be set")
	}
	d := decoder{structstack: structstack{allowexpr: expressionsEnabled, buf: data}, order: order}
	d.read(f, val)
	return nil
}

//gover:spec BitSize
//gover:props C12 C05
//gover:nopanic
func specBitSize(v interface{}) (size int, err error) {
	defer func() { gvRecover(recover(), &err) }()
	s := structstack{allowexpr: expressionsEnabled}
	f, val := gvTop(v)
	return s.fieldbits(f, addressable(val)), nil
}

//gover:spec SizeOf
//gover:props C12 C05
//gover:nopanic
func specSizeOf(v interface{}) (size int, err error) {
	defer func() { gvRecover(recover(), &err) }()
	s := structstack{allowexpr: expressionsEnabled}
	f, val := gvTop(v)
	return (s.fieldbits(f, addressable(val)) + 7) / 8, nil
}

//gover:spec Pack
//gover:props C12 C01 C06
//gover:nopanic
func specPack(order binary.ByteOrder, v interface{}) (data []byte, err error) {
	defer func() {
		if r := recover(); r != nil {
			data, err = nil, panicError(r)
		}
	}()
	f, val := gvTop(v)
	val = addressable(val)
	s := structstack{allowexpr: expressionsEnabled, buf: []byte{}}
	data = make([]byte, (s.fieldbits(f, val)+7)/8)
	s.buf = data
	e := encoder{structstack: s, order: order}
	e.write(f, val)
	return data, nil
}
