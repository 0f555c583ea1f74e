module vsimrt

go 1.23.0
