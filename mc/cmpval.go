package main

import (
	"strings"
)

// cmpVal is the documented comparison of two cells of one type: numbers by value, false before true,
// strings alphabetically ignoring case with capitals first between otherwise equal strings.
func cmpVal(a, b interface{}) int {
	sgn := func(lt, gt bool) int {
		if lt {
			return -1
		}
		if gt {
			return 1
		}
		return 0
	}
	switch x := a.(type) {
	case bool:
		y := b.(bool)
		return sgn(!x && y, x && !y)
	case string:
		y := b.(string)
		lx, ly := strings.ToLower(x), strings.ToLower(y)
		if lx != ly {
			return sgn(lx < ly, lx > ly)
		}
		return sgn(x < y, x > y)
	case float32: // NaN before all numbers
		y := b.(float32)
		return sgn(x < y || x != x && y == y, x > y || x == x && y != y)
	case float64: // NaN before all numbers
		y := b.(float64)
		return sgn(x < y || x != x && y == y, x > y || x == x && y != y)
	case int:
		y := b.(int)
		return sgn(x < y, x > y)
	case int8:
		y := b.(int8)
		return sgn(x < y, x > y)
	case int16:
		y := b.(int16)
		return sgn(x < y, x > y)
	case int32:
		y := b.(int32)
		return sgn(x < y, x > y)
	case int64:
		y := b.(int64)
		return sgn(x < y, x > y)
	case uint:
		y := b.(uint)
		return sgn(x < y, x > y)
	case uint8:
		y := b.(uint8)
		return sgn(x < y, x > y)
	case uint16:
		y := b.(uint16)
		return sgn(x < y, x > y)
	case uint32:
		y := b.(uint32)
		return sgn(x < y, x > y)
	case uint64:
		y := b.(uint64)
		return sgn(x < y, x > y)
	}
	panic("cmpVal: unsortable type")
}
