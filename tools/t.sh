cd /verif/mc; export V=/verif; . /verif/env.sh; gofmt -l .; go vet ./checks ./script && bash /verif/build.sh && bash /verif/run.sh "$@" 2>&1 | cut -c1-900| head -${LINES_:-60}
