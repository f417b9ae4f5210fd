package main

import (
	"reflect"

	"github.com/RomiChan/protobuf/proto"
)

// Types that need Go source: recursive ones, and ones with the same name.

type Rec struct {
	V    int32          `protobuf:"varint,1,opt"`
	Sub  *Rec           `protobuf:"bytes,2,opt"`
	Kids []*Rec         `protobuf:"bytes,3,rep"`
	By   map[int32]*Rec `protobuf:"bytes,4,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"bytes,2,opt"`
	B    []byte         `protobuf:"bytes,16,opt"`
}

// DRec is the schema "rec" of spec/DecoderSets.tla.
type DRec struct {
	V    int32           `protobuf:"varint,1,opt"`
	Sub  *DRec           `protobuf:"bytes,2,opt"`
	Kids []*DRec         `protobuf:"bytes,3,rep"`
	By   map[int32]*DRec `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

// SRecI and SRecS are schemas of spec/ScratchSets.tla.
type SRecI struct {
	B []byte           `protobuf:"bytes,1,opt"`
	M map[int32]*SRecI `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type SRecS struct {
	B []byte            `protobuf:"bytes,1,opt"`
	M map[string]*SRecS `protobuf:"bytes,2,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
}

type MutA struct {
	B  *MutB                `protobuf:"bytes,1,opt"`
	N  proto.Option[uint64] `protobuf:"varint,2,opt"`
	BS map[string]*MutB     `protobuf:"bytes,3,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
}

type MutB struct {
	A  []*MutA `protobuf:"bytes,2,rep"`
	X  *MutA   `protobuf:"bytes,3,opt"`
	N  *int64  `protobuf:"zigzag64,1,opt"`
	C  *MutC   `protobuf:"bytes,4,opt"`
	NN []int64 `protobuf:"fixed64,5,rep"`
}

type MutC struct {
	A *MutA  `protobuf:"bytes,1,opt"`
	C *MutC  `protobuf:"bytes,2,opt"`
	S string `protobuf:"bytes,3,opt"`
}

// Defined types of every kind.
type (
	DefBool  bool
	DefI32   int32
	DefI64   int64
	DefU32   uint32
	DefU64   uint64
	DefF32   float32
	DefF64   float64
	DefStr   string
	DefBytes []byte
	DefList  []DefI32
	DefStrs  []DefStr
	DefBlobs []DefBytes
	DefMap   map[DefStr]DefI64
	DefMsgs  map[DefU32]*Def
	DefKids  []*Def
)

type Def struct {
	F  DefBool              `protobuf:"varint,1,opt"`
	A  DefI32               `protobuf:"varint,2,opt"`
	B  DefI64               `protobuf:"zigzag64,3,opt"`
	C  DefU32               `protobuf:"fixed32,4,opt"`
	D  DefU64               `protobuf:"fixed64,5,opt"`
	E  DefF32               `protobuf:"fixed32,6,opt"`
	G  DefF64               `protobuf:"fixed64,7,opt"`
	S  DefStr               `protobuf:"bytes,8,opt"`
	Y  DefBytes             `protobuf:"bytes,9,opt"`
	L  DefList              `protobuf:"varint,10,rep"`
	Z  []DefI32             `protobuf:"zigzag32,11,rep"`
	P  []int32              `protobuf:"varint,12,rep"`
	LS DefStrs              `protobuf:"bytes,13,rep"`
	LB DefBlobs             `protobuf:"bytes,14,rep"`
	M  DefMap               `protobuf:"bytes,15,rep" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	MM DefMsgs              `protobuf:"bytes,16,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	MB map[DefBool]DefBytes `protobuf:"bytes,17,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	K  DefKids              `protobuf:"bytes,18,rep"`
	PI *DefI64              `protobuf:"varint,19,opt"`
	PS *DefStr              `protobuf:"bytes,20,opt"`
	PF *DefF32              `protobuf:"fixed32,21,opt"`
	R  *Def                 `protobuf:"bytes,22,opt"`
}

func sameName1() reflect.Type {
	type T struct {
		A int32    `protobuf:"varint,1,opt"`
		B []string `protobuf:"bytes,2,rep"`
	}
	return reflect.TypeOf(T{})
}

func sameName2() reflect.Type {
	type T struct {
		A int32           `protobuf:"zigzag32,1,opt"`
		B map[string]bool `protobuf:"bytes,2,rep" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	}
	return reflect.TypeOf(T{})
}

var staticTypes = map[string][]reflect.Type{
	"Rec":        {reflect.TypeOf(Rec{})},
	"DRec":       {reflect.TypeOf(DRec{})},
	"SRecint32":  {reflect.TypeOf(SRecI{})},
	"SRecstring": {reflect.TypeOf(SRecS{})},
	"Mut":        {reflect.TypeOf(MutA{})},
	"Mut2":       {reflect.TypeOf(MutC{})},
	"Def":        {reflect.TypeOf(Def{})},
	"Same":       {sameName1(), sameName2()},
	"Emas":       {sameName2(), sameName1()},
}
