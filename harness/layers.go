package main

// Types in layers for encost.go: each refers three times to the one below it.

import "reflect"

type layer00100 struct {
	V int32 `protobuf:"varint,1,opt"`
}
type layer00101 struct {
	A *layer00100 `protobuf:"bytes,1,opt"`
	B *layer00100 `protobuf:"bytes,2,opt"`
	C *layer00100 `protobuf:"bytes,3,opt"`
}
type layer00200 struct {
	V int32 `protobuf:"varint,1,opt"`
}
type layer00201 struct {
	A *layer00200 `protobuf:"bytes,1,opt"`
	B *layer00200 `protobuf:"bytes,2,opt"`
	C *layer00200 `protobuf:"bytes,3,opt"`
}
type layer00202 struct {
	A *layer00201 `protobuf:"bytes,1,opt"`
	B *layer00201 `protobuf:"bytes,2,opt"`
	C *layer00201 `protobuf:"bytes,3,opt"`
}
type layer00400 struct {
	V int32 `protobuf:"varint,1,opt"`
}
type layer00401 struct {
	A *layer00400 `protobuf:"bytes,1,opt"`
	B *layer00400 `protobuf:"bytes,2,opt"`
	C *layer00400 `protobuf:"bytes,3,opt"`
}
type layer00402 struct {
	A *layer00401 `protobuf:"bytes,1,opt"`
	B *layer00401 `protobuf:"bytes,2,opt"`
	C *layer00401 `protobuf:"bytes,3,opt"`
}
type layer00403 struct {
	A *layer00402 `protobuf:"bytes,1,opt"`
	B *layer00402 `protobuf:"bytes,2,opt"`
	C *layer00402 `protobuf:"bytes,3,opt"`
}
type layer00404 struct {
	A *layer00403 `protobuf:"bytes,1,opt"`
	B *layer00403 `protobuf:"bytes,2,opt"`
	C *layer00403 `protobuf:"bytes,3,opt"`
}
type layer00800 struct {
	V int32 `protobuf:"varint,1,opt"`
}
type layer00801 struct {
	A *layer00800 `protobuf:"bytes,1,opt"`
	B *layer00800 `protobuf:"bytes,2,opt"`
	C *layer00800 `protobuf:"bytes,3,opt"`
}
type layer00802 struct {
	A *layer00801 `protobuf:"bytes,1,opt"`
	B *layer00801 `protobuf:"bytes,2,opt"`
	C *layer00801 `protobuf:"bytes,3,opt"`
}
type layer00803 struct {
	A *layer00802 `protobuf:"bytes,1,opt"`
	B *layer00802 `protobuf:"bytes,2,opt"`
	C *layer00802 `protobuf:"bytes,3,opt"`
}
type layer00804 struct {
	A *layer00803 `protobuf:"bytes,1,opt"`
	B *layer00803 `protobuf:"bytes,2,opt"`
	C *layer00803 `protobuf:"bytes,3,opt"`
}
type layer00805 struct {
	A *layer00804 `protobuf:"bytes,1,opt"`
	B *layer00804 `protobuf:"bytes,2,opt"`
	C *layer00804 `protobuf:"bytes,3,opt"`
}
type layer00806 struct {
	A *layer00805 `protobuf:"bytes,1,opt"`
	B *layer00805 `protobuf:"bytes,2,opt"`
	C *layer00805 `protobuf:"bytes,3,opt"`
}
type layer00807 struct {
	A *layer00806 `protobuf:"bytes,1,opt"`
	B *layer00806 `protobuf:"bytes,2,opt"`
	C *layer00806 `protobuf:"bytes,3,opt"`
}
type layer00808 struct {
	A *layer00807 `protobuf:"bytes,1,opt"`
	B *layer00807 `protobuf:"bytes,2,opt"`
	C *layer00807 `protobuf:"bytes,3,opt"`
}
type layer01600 struct {
	V int32 `protobuf:"varint,1,opt"`
}
type layer01601 struct {
	A *layer01600 `protobuf:"bytes,1,opt"`
	B *layer01600 `protobuf:"bytes,2,opt"`
	C *layer01600 `protobuf:"bytes,3,opt"`
}
type layer01602 struct {
	A *layer01601 `protobuf:"bytes,1,opt"`
	B *layer01601 `protobuf:"bytes,2,opt"`
	C *layer01601 `protobuf:"bytes,3,opt"`
}
type layer01603 struct {
	A *layer01602 `protobuf:"bytes,1,opt"`
	B *layer01602 `protobuf:"bytes,2,opt"`
	C *layer01602 `protobuf:"bytes,3,opt"`
}
type layer01604 struct {
	A *layer01603 `protobuf:"bytes,1,opt"`
	B *layer01603 `protobuf:"bytes,2,opt"`
	C *layer01603 `protobuf:"bytes,3,opt"`
}
type layer01605 struct {
	A *layer01604 `protobuf:"bytes,1,opt"`
	B *layer01604 `protobuf:"bytes,2,opt"`
	C *layer01604 `protobuf:"bytes,3,opt"`
}
type layer01606 struct {
	A *layer01605 `protobuf:"bytes,1,opt"`
	B *layer01605 `protobuf:"bytes,2,opt"`
	C *layer01605 `protobuf:"bytes,3,opt"`
}
type layer01607 struct {
	A *layer01606 `protobuf:"bytes,1,opt"`
	B *layer01606 `protobuf:"bytes,2,opt"`
	C *layer01606 `protobuf:"bytes,3,opt"`
}
type layer01608 struct {
	A *layer01607 `protobuf:"bytes,1,opt"`
	B *layer01607 `protobuf:"bytes,2,opt"`
	C *layer01607 `protobuf:"bytes,3,opt"`
}
type layer01609 struct {
	A *layer01608 `protobuf:"bytes,1,opt"`
	B *layer01608 `protobuf:"bytes,2,opt"`
	C *layer01608 `protobuf:"bytes,3,opt"`
}
type layer01610 struct {
	A *layer01609 `protobuf:"bytes,1,opt"`
	B *layer01609 `protobuf:"bytes,2,opt"`
	C *layer01609 `protobuf:"bytes,3,opt"`
}
type layer01611 struct {
	A *layer01610 `protobuf:"bytes,1,opt"`
	B *layer01610 `protobuf:"bytes,2,opt"`
	C *layer01610 `protobuf:"bytes,3,opt"`
}
type layer01612 struct {
	A *layer01611 `protobuf:"bytes,1,opt"`
	B *layer01611 `protobuf:"bytes,2,opt"`
	C *layer01611 `protobuf:"bytes,3,opt"`
}
type layer01613 struct {
	A *layer01612 `protobuf:"bytes,1,opt"`
	B *layer01612 `protobuf:"bytes,2,opt"`
	C *layer01612 `protobuf:"bytes,3,opt"`
}
type layer01614 struct {
	A *layer01613 `protobuf:"bytes,1,opt"`
	B *layer01613 `protobuf:"bytes,2,opt"`
	C *layer01613 `protobuf:"bytes,3,opt"`
}
type layer01615 struct {
	A *layer01614 `protobuf:"bytes,1,opt"`
	B *layer01614 `protobuf:"bytes,2,opt"`
	C *layer01614 `protobuf:"bytes,3,opt"`
}
type layer01616 struct {
	A *layer01615 `protobuf:"bytes,1,opt"`
	B *layer01615 `protobuf:"bytes,2,opt"`
	C *layer01615 `protobuf:"bytes,3,opt"`
}
type layer10100 struct {
	V int32 `protobuf:"varint,1,opt"`
}
type layer10101 struct {
	A []*layer10100 `protobuf:"bytes,1,rep"`
	B []*layer10100 `protobuf:"bytes,2,rep"`
	C []*layer10100 `protobuf:"bytes,3,rep"`
}
type layer10200 struct {
	V int32 `protobuf:"varint,1,opt"`
}
type layer10201 struct {
	A []*layer10200 `protobuf:"bytes,1,rep"`
	B []*layer10200 `protobuf:"bytes,2,rep"`
	C []*layer10200 `protobuf:"bytes,3,rep"`
}
type layer10202 struct {
	A []*layer10201 `protobuf:"bytes,1,rep"`
	B []*layer10201 `protobuf:"bytes,2,rep"`
	C []*layer10201 `protobuf:"bytes,3,rep"`
}
type layer10400 struct {
	V int32 `protobuf:"varint,1,opt"`
}
type layer10401 struct {
	A []*layer10400 `protobuf:"bytes,1,rep"`
	B []*layer10400 `protobuf:"bytes,2,rep"`
	C []*layer10400 `protobuf:"bytes,3,rep"`
}
type layer10402 struct {
	A []*layer10401 `protobuf:"bytes,1,rep"`
	B []*layer10401 `protobuf:"bytes,2,rep"`
	C []*layer10401 `protobuf:"bytes,3,rep"`
}
type layer10403 struct {
	A []*layer10402 `protobuf:"bytes,1,rep"`
	B []*layer10402 `protobuf:"bytes,2,rep"`
	C []*layer10402 `protobuf:"bytes,3,rep"`
}
type layer10404 struct {
	A []*layer10403 `protobuf:"bytes,1,rep"`
	B []*layer10403 `protobuf:"bytes,2,rep"`
	C []*layer10403 `protobuf:"bytes,3,rep"`
}
type layer10800 struct {
	V int32 `protobuf:"varint,1,opt"`
}
type layer10801 struct {
	A []*layer10800 `protobuf:"bytes,1,rep"`
	B []*layer10800 `protobuf:"bytes,2,rep"`
	C []*layer10800 `protobuf:"bytes,3,rep"`
}
type layer10802 struct {
	A []*layer10801 `protobuf:"bytes,1,rep"`
	B []*layer10801 `protobuf:"bytes,2,rep"`
	C []*layer10801 `protobuf:"bytes,3,rep"`
}
type layer10803 struct {
	A []*layer10802 `protobuf:"bytes,1,rep"`
	B []*layer10802 `protobuf:"bytes,2,rep"`
	C []*layer10802 `protobuf:"bytes,3,rep"`
}
type layer10804 struct {
	A []*layer10803 `protobuf:"bytes,1,rep"`
	B []*layer10803 `protobuf:"bytes,2,rep"`
	C []*layer10803 `protobuf:"bytes,3,rep"`
}
type layer10805 struct {
	A []*layer10804 `protobuf:"bytes,1,rep"`
	B []*layer10804 `protobuf:"bytes,2,rep"`
	C []*layer10804 `protobuf:"bytes,3,rep"`
}
type layer10806 struct {
	A []*layer10805 `protobuf:"bytes,1,rep"`
	B []*layer10805 `protobuf:"bytes,2,rep"`
	C []*layer10805 `protobuf:"bytes,3,rep"`
}
type layer10807 struct {
	A []*layer10806 `protobuf:"bytes,1,rep"`
	B []*layer10806 `protobuf:"bytes,2,rep"`
	C []*layer10806 `protobuf:"bytes,3,rep"`
}
type layer10808 struct {
	A []*layer10807 `protobuf:"bytes,1,rep"`
	B []*layer10807 `protobuf:"bytes,2,rep"`
	C []*layer10807 `protobuf:"bytes,3,rep"`
}
type layer11600 struct {
	V int32 `protobuf:"varint,1,opt"`
}
type layer11601 struct {
	A []*layer11600 `protobuf:"bytes,1,rep"`
	B []*layer11600 `protobuf:"bytes,2,rep"`
	C []*layer11600 `protobuf:"bytes,3,rep"`
}
type layer11602 struct {
	A []*layer11601 `protobuf:"bytes,1,rep"`
	B []*layer11601 `protobuf:"bytes,2,rep"`
	C []*layer11601 `protobuf:"bytes,3,rep"`
}
type layer11603 struct {
	A []*layer11602 `protobuf:"bytes,1,rep"`
	B []*layer11602 `protobuf:"bytes,2,rep"`
	C []*layer11602 `protobuf:"bytes,3,rep"`
}
type layer11604 struct {
	A []*layer11603 `protobuf:"bytes,1,rep"`
	B []*layer11603 `protobuf:"bytes,2,rep"`
	C []*layer11603 `protobuf:"bytes,3,rep"`
}
type layer11605 struct {
	A []*layer11604 `protobuf:"bytes,1,rep"`
	B []*layer11604 `protobuf:"bytes,2,rep"`
	C []*layer11604 `protobuf:"bytes,3,rep"`
}
type layer11606 struct {
	A []*layer11605 `protobuf:"bytes,1,rep"`
	B []*layer11605 `protobuf:"bytes,2,rep"`
	C []*layer11605 `protobuf:"bytes,3,rep"`
}
type layer11607 struct {
	A []*layer11606 `protobuf:"bytes,1,rep"`
	B []*layer11606 `protobuf:"bytes,2,rep"`
	C []*layer11606 `protobuf:"bytes,3,rep"`
}
type layer11608 struct {
	A []*layer11607 `protobuf:"bytes,1,rep"`
	B []*layer11607 `protobuf:"bytes,2,rep"`
	C []*layer11607 `protobuf:"bytes,3,rep"`
}
type layer11609 struct {
	A []*layer11608 `protobuf:"bytes,1,rep"`
	B []*layer11608 `protobuf:"bytes,2,rep"`
	C []*layer11608 `protobuf:"bytes,3,rep"`
}
type layer11610 struct {
	A []*layer11609 `protobuf:"bytes,1,rep"`
	B []*layer11609 `protobuf:"bytes,2,rep"`
	C []*layer11609 `protobuf:"bytes,3,rep"`
}
type layer11611 struct {
	A []*layer11610 `protobuf:"bytes,1,rep"`
	B []*layer11610 `protobuf:"bytes,2,rep"`
	C []*layer11610 `protobuf:"bytes,3,rep"`
}
type layer11612 struct {
	A []*layer11611 `protobuf:"bytes,1,rep"`
	B []*layer11611 `protobuf:"bytes,2,rep"`
	C []*layer11611 `protobuf:"bytes,3,rep"`
}
type layer11613 struct {
	A []*layer11612 `protobuf:"bytes,1,rep"`
	B []*layer11612 `protobuf:"bytes,2,rep"`
	C []*layer11612 `protobuf:"bytes,3,rep"`
}
type layer11614 struct {
	A []*layer11613 `protobuf:"bytes,1,rep"`
	B []*layer11613 `protobuf:"bytes,2,rep"`
	C []*layer11613 `protobuf:"bytes,3,rep"`
}
type layer11615 struct {
	A []*layer11614 `protobuf:"bytes,1,rep"`
	B []*layer11614 `protobuf:"bytes,2,rep"`
	C []*layer11614 `protobuf:"bytes,3,rep"`
}
type layer11616 struct {
	A []*layer11615 `protobuf:"bytes,1,rep"`
	B []*layer11615 `protobuf:"bytes,2,rep"`
	C []*layer11615 `protobuf:"bytes,3,rep"`
}
type layer20100 struct {
	V int32 `protobuf:"varint,1,opt"`
}
type layer20101 struct {
	A map[int32]*layer20100 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	B map[int32]*layer20100 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	C map[int32]*layer20100 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer20200 struct {
	V int32 `protobuf:"varint,1,opt"`
}
type layer20201 struct {
	A map[int32]*layer20200 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	B map[int32]*layer20200 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	C map[int32]*layer20200 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer20202 struct {
	A map[int32]*layer20201 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	B map[int32]*layer20201 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	C map[int32]*layer20201 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer20400 struct {
	V int32 `protobuf:"varint,1,opt"`
}
type layer20401 struct {
	A map[int32]*layer20400 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	B map[int32]*layer20400 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	C map[int32]*layer20400 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer20402 struct {
	A map[int32]*layer20401 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	B map[int32]*layer20401 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	C map[int32]*layer20401 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer20403 struct {
	A map[int32]*layer20402 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	B map[int32]*layer20402 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	C map[int32]*layer20402 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer20404 struct {
	A map[int32]*layer20403 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	B map[int32]*layer20403 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	C map[int32]*layer20403 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer20800 struct {
	V int32 `protobuf:"varint,1,opt"`
}
type layer20801 struct {
	A map[int32]*layer20800 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	B map[int32]*layer20800 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	C map[int32]*layer20800 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer20802 struct {
	A map[int32]*layer20801 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	B map[int32]*layer20801 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	C map[int32]*layer20801 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer20803 struct {
	A map[int32]*layer20802 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	B map[int32]*layer20802 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	C map[int32]*layer20802 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer20804 struct {
	A map[int32]*layer20803 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	B map[int32]*layer20803 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	C map[int32]*layer20803 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer20805 struct {
	A map[int32]*layer20804 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	B map[int32]*layer20804 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	C map[int32]*layer20804 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer20806 struct {
	A map[int32]*layer20805 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	B map[int32]*layer20805 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	C map[int32]*layer20805 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer20807 struct {
	A map[int32]*layer20806 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	B map[int32]*layer20806 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	C map[int32]*layer20806 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer20808 struct {
	A map[int32]*layer20807 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	B map[int32]*layer20807 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	C map[int32]*layer20807 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer21600 struct {
	V int32 `protobuf:"varint,1,opt"`
}
type layer21601 struct {
	A map[int32]*layer21600 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	B map[int32]*layer21600 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	C map[int32]*layer21600 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer21602 struct {
	A map[int32]*layer21601 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	B map[int32]*layer21601 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	C map[int32]*layer21601 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer21603 struct {
	A map[int32]*layer21602 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	B map[int32]*layer21602 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	C map[int32]*layer21602 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer21604 struct {
	A map[int32]*layer21603 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	B map[int32]*layer21603 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	C map[int32]*layer21603 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer21605 struct {
	A map[int32]*layer21604 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	B map[int32]*layer21604 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	C map[int32]*layer21604 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer21606 struct {
	A map[int32]*layer21605 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	B map[int32]*layer21605 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	C map[int32]*layer21605 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer21607 struct {
	A map[int32]*layer21606 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	B map[int32]*layer21606 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	C map[int32]*layer21606 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer21608 struct {
	A map[int32]*layer21607 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	B map[int32]*layer21607 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	C map[int32]*layer21607 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer21609 struct {
	A map[int32]*layer21608 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	B map[int32]*layer21608 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	C map[int32]*layer21608 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer21610 struct {
	A map[int32]*layer21609 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	B map[int32]*layer21609 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	C map[int32]*layer21609 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer21611 struct {
	A map[int32]*layer21610 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	B map[int32]*layer21610 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	C map[int32]*layer21610 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer21612 struct {
	A map[int32]*layer21611 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	B map[int32]*layer21611 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	C map[int32]*layer21611 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer21613 struct {
	A map[int32]*layer21612 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	B map[int32]*layer21612 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	C map[int32]*layer21612 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer21614 struct {
	A map[int32]*layer21613 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	B map[int32]*layer21613 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	C map[int32]*layer21613 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer21615 struct {
	A map[int32]*layer21614 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	B map[int32]*layer21614 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	C map[int32]*layer21614 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer21616 struct {
	A map[int32]*layer21615 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	B map[int32]*layer21615 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	C map[int32]*layer21615 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer30100 struct {
	V int32 `protobuf:"varint,1,opt"`
}
type layer30101 struct {
	A *layer30100           `protobuf:"bytes,1,opt"`
	B []*layer30100         `protobuf:"bytes,2,rep"`
	C map[int32]*layer30100 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer30200 struct {
	V int32 `protobuf:"varint,1,opt"`
}
type layer30201 struct {
	A *layer30200           `protobuf:"bytes,1,opt"`
	B []*layer30200         `protobuf:"bytes,2,rep"`
	C map[int32]*layer30200 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer30202 struct {
	A *layer30201           `protobuf:"bytes,1,opt"`
	B []*layer30201         `protobuf:"bytes,2,rep"`
	C map[int32]*layer30201 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer30400 struct {
	V int32 `protobuf:"varint,1,opt"`
}
type layer30401 struct {
	A *layer30400           `protobuf:"bytes,1,opt"`
	B []*layer30400         `protobuf:"bytes,2,rep"`
	C map[int32]*layer30400 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer30402 struct {
	A *layer30401           `protobuf:"bytes,1,opt"`
	B []*layer30401         `protobuf:"bytes,2,rep"`
	C map[int32]*layer30401 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer30403 struct {
	A *layer30402           `protobuf:"bytes,1,opt"`
	B []*layer30402         `protobuf:"bytes,2,rep"`
	C map[int32]*layer30402 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer30404 struct {
	A *layer30403           `protobuf:"bytes,1,opt"`
	B []*layer30403         `protobuf:"bytes,2,rep"`
	C map[int32]*layer30403 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer30800 struct {
	V int32 `protobuf:"varint,1,opt"`
}
type layer30801 struct {
	A *layer30800           `protobuf:"bytes,1,opt"`
	B []*layer30800         `protobuf:"bytes,2,rep"`
	C map[int32]*layer30800 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer30802 struct {
	A *layer30801           `protobuf:"bytes,1,opt"`
	B []*layer30801         `protobuf:"bytes,2,rep"`
	C map[int32]*layer30801 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer30803 struct {
	A *layer30802           `protobuf:"bytes,1,opt"`
	B []*layer30802         `protobuf:"bytes,2,rep"`
	C map[int32]*layer30802 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer30804 struct {
	A *layer30803           `protobuf:"bytes,1,opt"`
	B []*layer30803         `protobuf:"bytes,2,rep"`
	C map[int32]*layer30803 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer30805 struct {
	A *layer30804           `protobuf:"bytes,1,opt"`
	B []*layer30804         `protobuf:"bytes,2,rep"`
	C map[int32]*layer30804 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer30806 struct {
	A *layer30805           `protobuf:"bytes,1,opt"`
	B []*layer30805         `protobuf:"bytes,2,rep"`
	C map[int32]*layer30805 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer30807 struct {
	A *layer30806           `protobuf:"bytes,1,opt"`
	B []*layer30806         `protobuf:"bytes,2,rep"`
	C map[int32]*layer30806 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer30808 struct {
	A *layer30807           `protobuf:"bytes,1,opt"`
	B []*layer30807         `protobuf:"bytes,2,rep"`
	C map[int32]*layer30807 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer31600 struct {
	V int32 `protobuf:"varint,1,opt"`
}
type layer31601 struct {
	A *layer31600           `protobuf:"bytes,1,opt"`
	B []*layer31600         `protobuf:"bytes,2,rep"`
	C map[int32]*layer31600 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer31602 struct {
	A *layer31601           `protobuf:"bytes,1,opt"`
	B []*layer31601         `protobuf:"bytes,2,rep"`
	C map[int32]*layer31601 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer31603 struct {
	A *layer31602           `protobuf:"bytes,1,opt"`
	B []*layer31602         `protobuf:"bytes,2,rep"`
	C map[int32]*layer31602 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer31604 struct {
	A *layer31603           `protobuf:"bytes,1,opt"`
	B []*layer31603         `protobuf:"bytes,2,rep"`
	C map[int32]*layer31603 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer31605 struct {
	A *layer31604           `protobuf:"bytes,1,opt"`
	B []*layer31604         `protobuf:"bytes,2,rep"`
	C map[int32]*layer31604 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer31606 struct {
	A *layer31605           `protobuf:"bytes,1,opt"`
	B []*layer31605         `protobuf:"bytes,2,rep"`
	C map[int32]*layer31605 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer31607 struct {
	A *layer31606           `protobuf:"bytes,1,opt"`
	B []*layer31606         `protobuf:"bytes,2,rep"`
	C map[int32]*layer31606 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer31608 struct {
	A *layer31607           `protobuf:"bytes,1,opt"`
	B []*layer31607         `protobuf:"bytes,2,rep"`
	C map[int32]*layer31607 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer31609 struct {
	A *layer31608           `protobuf:"bytes,1,opt"`
	B []*layer31608         `protobuf:"bytes,2,rep"`
	C map[int32]*layer31608 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer31610 struct {
	A *layer31609           `protobuf:"bytes,1,opt"`
	B []*layer31609         `protobuf:"bytes,2,rep"`
	C map[int32]*layer31609 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer31611 struct {
	A *layer31610           `protobuf:"bytes,1,opt"`
	B []*layer31610         `protobuf:"bytes,2,rep"`
	C map[int32]*layer31610 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer31612 struct {
	A *layer31611           `protobuf:"bytes,1,opt"`
	B []*layer31611         `protobuf:"bytes,2,rep"`
	C map[int32]*layer31611 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer31613 struct {
	A *layer31612           `protobuf:"bytes,1,opt"`
	B []*layer31612         `protobuf:"bytes,2,rep"`
	C map[int32]*layer31612 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer31614 struct {
	A *layer31613           `protobuf:"bytes,1,opt"`
	B []*layer31613         `protobuf:"bytes,2,rep"`
	C map[int32]*layer31613 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer31615 struct {
	A *layer31614           `protobuf:"bytes,1,opt"`
	B []*layer31614         `protobuf:"bytes,2,rep"`
	C map[int32]*layer31614 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}
type layer31616 struct {
	A *layer31615           `protobuf:"bytes,1,opt"`
	B []*layer31615         `protobuf:"bytes,2,rep"`
	C map[int32]*layer31615 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

var layers = []struct {
	name string
	n    int
	t    reflect.Type
}{
	{"layers of fields", 1, reflect.TypeOf((*layer00101)(nil)).Elem()},
	{"layers of fields", 2, reflect.TypeOf((*layer00202)(nil)).Elem()},
	{"layers of fields", 4, reflect.TypeOf((*layer00404)(nil)).Elem()},
	{"layers of fields", 8, reflect.TypeOf((*layer00808)(nil)).Elem()},
	{"layers of fields", 16, reflect.TypeOf((*layer01616)(nil)).Elem()},
	{"layers of lists", 1, reflect.TypeOf((*layer10101)(nil)).Elem()},
	{"layers of lists", 2, reflect.TypeOf((*layer10202)(nil)).Elem()},
	{"layers of lists", 4, reflect.TypeOf((*layer10404)(nil)).Elem()},
	{"layers of lists", 8, reflect.TypeOf((*layer10808)(nil)).Elem()},
	{"layers of lists", 16, reflect.TypeOf((*layer11616)(nil)).Elem()},
	{"layers of maps", 1, reflect.TypeOf((*layer20101)(nil)).Elem()},
	{"layers of maps", 2, reflect.TypeOf((*layer20202)(nil)).Elem()},
	{"layers of maps", 4, reflect.TypeOf((*layer20404)(nil)).Elem()},
	{"layers of maps", 8, reflect.TypeOf((*layer20808)(nil)).Elem()},
	{"layers of maps", 16, reflect.TypeOf((*layer21616)(nil)).Elem()},
	{"layers of all", 1, reflect.TypeOf((*layer30101)(nil)).Elem()},
	{"layers of all", 2, reflect.TypeOf((*layer30202)(nil)).Elem()},
	{"layers of all", 4, reflect.TypeOf((*layer30404)(nil)).Elem()},
	{"layers of all", 8, reflect.TypeOf((*layer30808)(nil)).Elem()},
	{"layers of all", 16, reflect.TypeOf((*layer31616)(nil)).Elem()},
}
