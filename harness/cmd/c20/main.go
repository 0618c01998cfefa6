// C20: what an exported file shows is the mesh.
package main

import (
	"os"
	"path/filepath"

	"geGoMetry/glTF"
	"verif/glb"
	"verif/pbt"
)

func check(c glb.Case, r *pbt.R) {
	m := c.Mesh()
	r.NonTrivialIf(len(m.Vertices) > 1)
	r.Label("%s", map[bool]string{true: "shape", false: "free"}[c.Shape != ""])
	if len(m.Vertices) > 65535 {
		r.Label("more than 65535 vertices")
	}
	dir, err := os.MkdirTemp("", "verif-c20-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "out.glb")
	glTF.Export(m, name)
	data, err := os.ReadFile(name)
	if err != nil {
		r.Failf("%v", err)
	}
	doc, err := glb.Parse(data)
	if err != nil {
		r.Failf("unreadable: %v", err)
	}
	prims, err := doc.Shown()
	if err != nil {
		r.Failf("%v", err)
	}
	if len(prims) != 1 {
		r.Failf("the scene shows %d primitives", len(prims))
	}
	p := prims[0]
	if p.Mode != nil && *p.Mode != 4 {
		r.Failf("mode %d is not a list of triangles", *p.Mode)
	}
	pos := doc.Values(p.Attributes["POSITION"])
	if len(pos) != len(m.Vertices) {
		r.Failf("%d positions for %d vertices", len(pos), len(m.Vertices))
	}
	for i, v := range m.Vertices {
		for k, x := range []float64{v.X, v.Y, v.Z} {
			if pos[i][k] != float64(float32(x)) {
				r.Failf("vertex %d %v became %v", i, v, pos[i])
			}
		}
	}
	if p.Indices == nil {
		r.Failf("no indices")
	}
	idx := doc.Values(*p.Indices)
	if len(idx) != len(m.Indices) {
		r.Failf("%d indices for %d", len(idx), len(m.Indices))
	}
	for i, x := range m.Indices {
		if idx[i][0] != float64(x) {
			r.Failf("index %d: %v became %v", i, x, idx[i][0])
		}
	}
	ci, ok := p.Attributes["COLOR_0"]
	if !ok {
		r.Failf("no colours")
	}
	white := map[int]float64{5121: 255, 5123: 65535, 5126: 1}[doc.Access[ci].ComponentType]
	for i, col := range doc.Values(ci) {
		for _, x := range col {
			if x != white {
				r.Failf("vertex %d has colour %v", i, col)
			}
		}
	}
}

func main() {
	pbt.Main(pbt.Spec{
		ID:          "C20",
		Rule:        "meshes of 1..14 free vertices (1e-44..1e38, repeated ones) and triangles, some extended by formula to around 256, to thousands and to around 65536 vertices, and the constructed shapes; oracle: an independent strict GLB reader: one list of triangles, positions rounded to float, indices in order, white. Non-trivial: more than one vertex.",
		Assumptions: []string{"finite coordinates below the largest float", "at least one vertex and one triangle, indices in range"},
		Parts:       []pbt.Part{pbt.P("export", 40000, 300000, glb.Draw, check)},
	})
}
