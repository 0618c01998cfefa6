// C21: exported files are well-formed GLB containers; failures are reported.
package main

import (
	"bytes"
	"os"
	"path/filepath"
	"reflect"

	"geGoMetry/glTF"
	"geGoMetry/r3"
	"geGoMetry/shape"
	"verif/glb"
	"verif/pbt"

	"pgregory.net/rapid"
)

func scratch() string {
	dir, err := os.MkdirTemp("", "verif-c21-")
	if err != nil {
		panic(err)
	}
	return dir
}

func clone(m shape.Mesh) shape.Mesh {
	return shape.Mesh{
		Vertices:  append([]r3.Vector(nil), m.Vertices...),
		Normals:   append([][3]float64(nil), m.Normals...),
		TexCoords: append([][2]float64(nil), m.TexCoords...),
		Indices:   append([]uint32(nil), m.Indices...),
	}
}

func checkFile(c glb.Case, r *pbt.R) {
	r.NonTrivial()
	m := c.Mesh()
	before := clone(m)
	dir := scratch()
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, c.FileName)
	if c.Overwrites > 0 {
		r.Label("overwrites")
		if err := os.WriteFile(name, bytes.Repeat([]byte{'x'}, c.Overwrites), 0o644); err != nil {
			panic(err)
		}
	}
	glTF.Export(m, name)
	data, err := os.ReadFile(name)
	if err != nil {
		r.Failf("%v", err)
	}
	if _, err := glb.Parse(data); err != nil {
		r.Failf("%v", err)
	}
	if entries, _ := os.ReadDir(dir); len(entries) != 1 {
		r.Failf("%d files written", len(entries))
	}
	if !same(m, before) {
		r.Failf("the mesh was changed by exporting it")
	}
	// A second export, over the first, writes the same file.
	glTF.Export(m, name)
	again, err := os.ReadFile(name)
	if err != nil {
		r.Failf("%v", err)
	}
	if !bytes.Equal(data, again) {
		if _, err := glb.Parse(again); err != nil {
			r.Failf("second export: %v", err)
		}
		r.Failf("two exports of one mesh differ")
	}
}

func same(a, b shape.Mesh) bool {
	eq := func(x, y any) bool {
		return reflect.ValueOf(x).Len() == 0 && reflect.ValueOf(y).Len() == 0 || reflect.DeepEqual(x, y)
	}
	return eq(a.Vertices, b.Vertices) && eq(a.Normals, b.Normals) && eq(a.TexCoords, b.TexCoords) && eq(a.Indices, b.Indices)
}

type Fault struct {
	glb.Case
	Kind  string
	Empty bool // the mesh has no triangles, or nothing at all
}

func checkFault(c Fault, r *pbt.R) {
	r.NonTrivial()
	r.Label("%s", c.Kind)
	m := c.Mesh()
	sound := m
	if c.Empty {
		m.Indices = nil
		if !c.Normals {
			m.Vertices = nil
		}
	}
	dir := scratch()
	defer os.RemoveAll(dir)
	name := ""
	switch c.Kind {
	case "missing directory":
		name = filepath.Join(dir, "missing", c.FileName)
	case "a directory":
		name = filepath.Join(dir, c.FileName)
		os.Mkdir(name, 0o755)
	case "below a file":
		os.WriteFile(filepath.Join(dir, "f"), []byte("x"), 0o644)
		name = filepath.Join(dir, "f", c.FileName)
	case "full device":
		name = "/dev/full"
	case "empty name":
		name = ""
	}
	if _, panicked := pbt.Try(func() { glTF.Export(m, name) }); !panicked {
		r.Failf("exporting to %s went unnoticed", c.Kind)
	}
	// The failure leaves nothing behind: the next export works.
	ok := filepath.Join(dir, "next.glb")
	glTF.Export(sound, ok)
	data, err := os.ReadFile(ok)
	if err != nil {
		r.Failf("%v", err)
	}
	if _, err := glb.Parse(data); err != nil {
		r.Failf("after a failed export: %v", err)
	}
}

func main() {
	pbt.Main(pbt.Spec{
		ID:          "C21",
		Rule:        "meshes as for the round trip, exported under various names, over existing longer and shorter files, twice; and to destinations that cannot be written. Oracle: strict validation of header, chunks, padding, buffer views, accessors, alignment, bounds and references, with an independent reader; input compared before and after; failures must surface as a panic. Every case is non-trivial.",
		Assumptions: []string{"finite coordinates below the largest float", "at least one vertex and one triangle (except where the export has to fail), indices in range"},
		Parts: []pbt.Part{
			pbt.P("file", 30000, 200000, glb.Draw, checkFile),
			pbt.P("fault", 1600, 10000, func(t *rapid.T) Fault {
				f := Fault{Case: glb.Draw(t), Empty: rapid.IntRange(0, 4).Draw(t, "empty") == 4, Kind: rapid.SampledFrom([]string{"missing directory", "a directory", "below a file", "full device", "empty name"}).Draw(t, "fault")}
				return f
			}, checkFault),
		},
	})
}
