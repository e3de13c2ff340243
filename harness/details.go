package main

import "strings"

// What an error says about the mistake, as far as it says anything: an empty
// list stands for what it does not carry.
type details struct {
	Arg  [][2]int `json:"arg"`
	Lo   [][2]int `json:"lo"`
	Hi   [][2]int `json:"hi"`
	Min  [][2]int `json:"min"`
	Max  [][2]int `json:"max"`
	Thr  [][2]int `json:"thr"`
	In   []int    `json:"in"` // whether the bound itself is allowed
	Pos  []int    `json:"pos"`
	Got  []int    `json:"got"`
	Want []int    `json:"want"`
	Msg  int      `json:"msg"` // whether the message is well formed
}

// tellDetails is set for the properties that are about them.
var tellDetails bool

func detailsOf(r interface{}) []details {
	e, ok := r.(error)
	if !ok || !tellDetails {
		return []details{}
	}
	d := details{Arg: [][2]int{}, Lo: [][2]int{}, Hi: [][2]int{}, Min: [][2]int{}, Max: [][2]int{}, Thr: [][2]int{},
		In: []int{}, Pos: []int{}, Got: []int{}, Want: []int{}}
	one := func(f float64) [][2]int { return [][2]int{fx(f)} }
	if x, ok := r.(interface{ Argument() float64 }); ok {
		d.Arg = one(x.Argument())
	}
	if x, ok := r.(interface{ Low() float64 }); ok {
		d.Lo = one(x.Low())
	}
	if x, ok := r.(interface{ High() float64 }); ok {
		d.Hi = one(x.High())
	}
	if x, ok := r.(interface{ Min() float64 }); ok {
		d.Min = one(x.Min())
	}
	switch x := r.(type) {
	case interface{ Max() float64 }:
		d.Max = one(x.Max())
	case interface{ Max() int }:
		d.Max = one(float64(x.Max()))
	}
	if x, ok := r.(interface{ Threshold() float64 }); ok {
		d.Thr = one(x.Threshold())
	}
	if x, ok := r.(interface{ IsBoundAllowed() bool }); ok {
		d.In = b2i(x.IsBoundAllowed())
	}
	if x, ok := r.(interface {
		Row() int
		Column() int
	}); ok {
		d.Pos = []int{x.Row(), x.Column()}
	}
	if x, ok := r.(interface {
		WrongDimensions() []int
		ExpectedDimensions() []int
	}); ok {
		d.Got = append(d.Got, x.WrongDimensions()...)
		d.Want = append(d.Want, x.ExpectedDimensions()...)
	}
	if x, ok := r.(interface {
		WrongRowDimension() int
		WrongColumnDimension() int
		ExpectedRowDimension() int
		ExpectedColumnDimension() int
	}); ok {
		d.Got = []int{x.WrongRowDimension(), x.WrongColumnDimension()}
		d.Want = []int{x.ExpectedRowDimension(), x.ExpectedColumnDimension()}
	}
	if m := e.Error(); m != "" && !strings.Contains(m, "%!") && !strings.Contains(m, "{0}") {
		d.Msg = 1
	}
	return []details{d}
}
