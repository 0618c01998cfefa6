// Package glb reads binary glTF files, strictly, without the library that writes them.
package glb

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
)

type Accessor struct {
	BufferView    *int      `json:"bufferView"`
	ByteOffset    int       `json:"byteOffset"`
	ComponentType int       `json:"componentType"`
	Normalized    bool      `json:"normalized"`
	Count         int       `json:"count"`
	Type          string    `json:"type"`
	Min           []float64 `json:"min"`
	Max           []float64 `json:"max"`
	Sparse        any       `json:"sparse"`
}

type View struct {
	Buffer     int `json:"buffer"`
	ByteOffset int `json:"byteOffset"`
	ByteLength int `json:"byteLength"`
	ByteStride int `json:"byteStride"`
	Target     int `json:"target"`
}

type Primitive struct {
	Attributes map[string]int `json:"attributes"`
	Indices    *int           `json:"indices"`
	Mode       *int           `json:"mode"`
	Material   *int           `json:"material"`
}

type Node struct {
	Mesh        *int      `json:"mesh"`
	Matrix      []float64 `json:"matrix"`
	Translation []float64 `json:"translation"`
	Rotation    []float64 `json:"rotation"`
	Scale       []float64 `json:"scale"`
	Children    []int     `json:"children"`
}

type Doc struct {
	Asset struct {
		Version string `json:"version"`
	} `json:"asset"`
	Scene   *int `json:"scene"`
	Scenes  []struct{ Nodes []int }
	Nodes   []Node
	Meshes  []struct{ Primitives []Primitive }
	Access  []Accessor `json:"accessors"`
	Views   []View     `json:"bufferViews"`
	Buffers []struct {
		ByteLength int    `json:"byteLength"`
		URI        string `json:"uri"`
	}
	Mat []any `json:"materials"`
	Bin []byte
}

// Parse takes a GLB file apart and checks everything the container and the accessors require.
func Parse(data []byte) (*Doc, error) {
	u32 := binary.LittleEndian.Uint32
	if len(data) < 20 || string(data[:4]) != "glTF" {
		return nil, fmt.Errorf("no GLB header in %d bytes", len(data))
	}
	if u32(data[4:]) != 2 {
		return nil, fmt.Errorf("container version %d", u32(data[4:]))
	}
	if int(u32(data[8:])) != len(data) {
		return nil, fmt.Errorf("header announces %d bytes, the file has %d", u32(data[8:]), len(data))
	}
	doc := &Doc{}
	hasBin := false
	for at, n := 12, 0; at < len(data); n++ {
		if len(data)-at < 8 {
			return nil, fmt.Errorf("%d stray bytes at the end", len(data)-at)
		}
		size, kind := int(u32(data[at:])), u32(data[at+4:])
		at += 8
		if size%4 != 0 || size > len(data)-at {
			return nil, fmt.Errorf("chunk %d of %d bytes", n, size)
		}
		body := data[at : at+size]
		at += size
		switch {
		case n == 0 && kind == 0x4E4F534A:
			d := json.NewDecoder(bytes.NewReader(body))
			if err := d.Decode(doc); err != nil {
				return nil, err
			}
			if rest := bytes.TrimRight(body[d.InputOffset():], " "); len(rest) > 0 {
				return nil, fmt.Errorf("%q after the JSON value", rest)
			}
		case n == 1 && kind == 0x004E4942:
			doc.Bin, hasBin = body, true
		default:
			return nil, fmt.Errorf("chunk %d of type %08x", n, kind)
		}
	}
	if doc.Asset.Version != "2.0" {
		return nil, fmt.Errorf("asset version %q", doc.Asset.Version)
	}
	for i, b := range doc.Buffers {
		if i > 0 || b.URI != "" || !hasBin || b.ByteLength < 1 || b.ByteLength > len(doc.Bin) || len(doc.Bin)-b.ByteLength > 3 {
			return nil, fmt.Errorf("buffer %d of %d bytes, binary chunk of %d", i, b.ByteLength, len(doc.Bin))
		}
	}
	for i, v := range doc.Views {
		if v.Buffer < 0 || v.Buffer >= len(doc.Buffers) || v.ByteOffset < 0 || v.ByteLength < 1 || v.ByteOffset+v.ByteLength > doc.Buffers[v.Buffer].ByteLength {
			return nil, fmt.Errorf("buffer view %d %+v leaves its buffer", i, v)
		}
		if v.ByteStride != 0 && (v.ByteStride%4 != 0 || v.ByteStride < 4 || v.ByteStride > 252) {
			return nil, fmt.Errorf("buffer view %d has stride %d", i, v.ByteStride)
		}
	}
	for i, a := range doc.Access {
		if a.BufferView == nil || a.Sparse != nil || *a.BufferView < 0 || *a.BufferView >= len(doc.Views) {
			return nil, fmt.Errorf("accessor %d without a buffer view", i)
		}
		v := doc.Views[*a.BufferView]
		size, n := Size(a.ComponentType), Components(a.Type)
		if size == 0 || n == 0 || a.Count < 1 {
			return nil, fmt.Errorf("accessor %d has component type %d, type %q, count %d", i, a.ComponentType, a.Type, a.Count)
		}
		stride := v.ByteStride
		if stride == 0 {
			stride = size * n
		}
		if stride < size*n || a.ByteOffset < 0 || a.ByteOffset%size != 0 || (a.ByteOffset+v.ByteOffset)%size != 0 || stride%size != 0 {
			return nil, fmt.Errorf("accessor %d %+v is not aligned in %+v", i, a, v)
		}
		if a.ByteOffset+(a.Count-1)*stride+size*n > v.ByteLength {
			return nil, fmt.Errorf("accessor %d %+v leaves its buffer view %+v", i, a, v)
		}
		for _, m := range [][]float64{a.Min, a.Max} {
			if m != nil && len(m) != n {
				return nil, fmt.Errorf("accessor %d has bounds %v", i, m)
			}
		}
		for k := 0; k < n && (a.Min != nil || a.Max != nil); k++ {
			lo, hi := math.Inf(1), math.Inf(-1)
			for j := 0; j < a.Count; j++ {
				x := doc.value(&a, j, k)
				lo, hi = math.Min(lo, x), math.Max(hi, x)
			}
			if a.ComponentType == 5126 { // bounds are written with float precision
				if a.Min != nil && float32(a.Min[k]) != float32(lo) || a.Max != nil && float32(a.Max[k]) != float32(hi) {
					return nil, fmt.Errorf("accessor %d: component %d lies in %v..%v, bounds %v %v", i, k, lo, hi, a.Min, a.Max)
				}
			} else if a.Min != nil && a.Min[k] != lo || a.Max != nil && a.Max[k] != hi {
				return nil, fmt.Errorf("accessor %d: component %d lies in %v..%v, bounds %v %v", i, k, lo, hi, a.Min, a.Max)
			}
		}
	}
	for i, n := range doc.Nodes {
		if n.Mesh != nil && (*n.Mesh < 0 || *n.Mesh >= len(doc.Meshes)) {
			return nil, fmt.Errorf("node %d shows mesh %d of %d", i, *n.Mesh, len(doc.Meshes))
		}
		for _, c := range n.Children {
			if c <= 0 || c >= len(doc.Nodes) {
				return nil, fmt.Errorf("node %d has child %d of %d", i, c, len(doc.Nodes))
			}
		}
	}
	for i, s := range doc.Scenes {
		for _, n := range s.Nodes {
			if n < 0 || n >= len(doc.Nodes) {
				return nil, fmt.Errorf("scene %d shows node %d of %d", i, n, len(doc.Nodes))
			}
		}
	}
	if doc.Scene != nil && (*doc.Scene < 0 || *doc.Scene >= len(doc.Scenes)) {
		return nil, fmt.Errorf("default scene %d of %d", *doc.Scene, len(doc.Scenes))
	}
	for i, m := range doc.Meshes {
		if len(m.Primitives) == 0 {
			return nil, fmt.Errorf("mesh %d is empty", i)
		}
		for _, p := range m.Primitives {
			if err := doc.primitive(p); err != nil {
				return nil, fmt.Errorf("mesh %d: %v", i, err)
			}
		}
	}
	return doc, nil
}

func (d *Doc) primitive(p Primitive) error {
	count := -1
	for name, i := range p.Attributes {
		if i < 0 || i >= len(d.Access) {
			return fmt.Errorf("%s is accessor %d of %d", name, i, len(d.Access))
		}
		a := d.Access[i]
		if count >= 0 && a.Count != count {
			return fmt.Errorf("attributes of %d and %d vertices", count, a.Count)
		}
		count = a.Count
		v := d.Views[*a.BufferView]
		if v.Target != 0 && v.Target != 34962 {
			return fmt.Errorf("%s lies in a view for target %d", name, v.Target)
		}
		stride := v.ByteStride
		if stride == 0 {
			stride = Size(a.ComponentType) * Components(a.Type)
		}
		if stride%4 != 0 || (v.ByteOffset+a.ByteOffset)%4 != 0 || a.ByteOffset%4 != 0 {
			return fmt.Errorf("%s is not aligned to four bytes: %+v in %+v", name, a, v)
		}
		ok := true
		switch name {
		case "POSITION":
			ok = a.Type == "VEC3" && a.ComponentType == 5126 && a.Min != nil && a.Max != nil
		case "NORMAL":
			ok = a.Type == "VEC3" && a.ComponentType == 5126
		case "COLOR_0":
			ok = (a.Type == "VEC3" || a.Type == "VEC4") && (a.ComponentType == 5126 || (a.ComponentType == 5121 || a.ComponentType == 5123) && a.Normalized)
		}
		if !ok {
			return fmt.Errorf("%s has accessor %+v", name, a)
		}
	}
	if _, ok := p.Attributes["POSITION"]; !ok {
		return fmt.Errorf("no positions")
	}
	if p.Indices != nil {
		if *p.Indices < 0 || *p.Indices >= len(d.Access) {
			return fmt.Errorf("indices are accessor %d of %d", *p.Indices, len(d.Access))
		}
		a := d.Access[*p.Indices]
		v := d.Views[*a.BufferView]
		if a.Type != "SCALAR" || (a.ComponentType != 5121 && a.ComponentType != 5123 && a.ComponentType != 5125) || a.Normalized || v.ByteStride != 0 || v.Target != 0 && v.Target != 34963 {
			return fmt.Errorf("indices have accessor %+v in %+v", a, v)
		}
		for j := 0; j < a.Count; j++ {
			if x := d.value(&a, j, 0); x < 0 || int(x) >= count {
				return fmt.Errorf("index %v of %d vertices", x, count)
			}
		}
	}
	return nil
}

// Size is the size of one component, 0 for an unknown type.
func Size(componentType int) int {
	switch componentType {
	case 5120, 5121:
		return 1
	case 5122, 5123:
		return 2
	case 5125, 5126:
		return 4
	}
	return 0
}

// Components is the number of components of an element, 0 for an unknown type.
func Components(t string) int {
	return map[string]int{"SCALAR": 1, "VEC2": 2, "VEC3": 3, "VEC4": 4}[t]
}

func (d *Doc) value(a *Accessor, j, k int) float64 {
	v := d.Views[*a.BufferView]
	size := Size(a.ComponentType)
	stride := v.ByteStride
	if stride == 0 {
		stride = size * Components(a.Type)
	}
	b := d.Bin[v.ByteOffset+a.ByteOffset+j*stride+k*size:]
	switch a.ComponentType {
	case 5120:
		return float64(int8(b[0]))
	case 5121:
		return float64(b[0])
	case 5122:
		return float64(int16(binary.LittleEndian.Uint16(b)))
	case 5123:
		return float64(binary.LittleEndian.Uint16(b))
	case 5125:
		return float64(binary.LittleEndian.Uint32(b))
	}
	return float64(math.Float32frombits(binary.LittleEndian.Uint32(b)))
}

// Values returns all elements of an accessor.
func (d *Doc) Values(i int) [][]float64 {
	a := d.Access[i]
	out := make([][]float64, a.Count)
	for j := range out {
		out[j] = make([]float64, Components(a.Type))
		for k := range out[j] {
			out[j][k] = d.value(&a, j, k)
		}
	}
	return out
}

// Shown returns the primitives of the default scene; nodes must not move them.
func (d *Doc) Shown() ([]Primitive, error) {
	scene := 0
	if d.Scene != nil {
		scene = *d.Scene
	}
	if scene >= len(d.Scenes) {
		return nil, fmt.Errorf("no scene")
	}
	var out []Primitive
	var visit func(i, depth int) error
	visit = func(i, depth int) error {
		if depth > len(d.Nodes) {
			return fmt.Errorf("nodes form a cycle")
		}
		n := d.Nodes[i]
		if !same(n.Matrix, []float64{1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}) || !same(n.Translation, []float64{0, 0, 0}) ||
			!same(n.Rotation, []float64{0, 0, 0, 1}) || !same(n.Scale, []float64{1, 1, 1}) {
			return fmt.Errorf("node %d is moved: %+v", i, n)
		}
		if n.Mesh != nil {
			out = append(out, d.Meshes[*n.Mesh].Primitives...)
		}
		for _, c := range n.Children {
			if err := visit(c, depth+1); err != nil {
				return err
			}
		}
		return nil
	}
	for _, n := range d.Scenes[scene].Nodes {
		if err := visit(n, 0); err != nil {
			return nil, err
		}
	}
	return out, nil
}

func same(got, identity []float64) bool {
	if got == nil {
		return true
	}
	if len(got) != len(identity) {
		return false
	}
	for i := range got {
		if got[i] != identity[i] {
			return false
		}
	}
	return true
}
