export GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB='*' GONOSUMCHECK=1 GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
