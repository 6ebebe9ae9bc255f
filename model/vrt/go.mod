module vrt

go 1.21

require golang.org/x/sys v0.0.0-20201214210602-f9fddec55a1e
