module verif

go 1.23

require (
	geGoMetry v0.0.0
	github.com/qmuntal/gltf v0.18.2
	github.com/ungerik/go3d v0.0.0-20200217190927-d82aececefe9
	nurbs v0.0.0
	pgregory.net/rapid v1.3.0
)

replace geGoMetry => /repo

replace nurbs => /repo/nurbs
