package main

import "strings"

// owned lists, per property, the violations that contradict it. A run that hits
// a violation of another property ends without saying anything about this one.
var owned = map[string]string{
	"G01": "walk-missing walk-extra walk-duplicate walk-order walk-refused walk-accepted walk-error",
	"G02": "walk-after-stop walk-leak",
	"G03": "list- leak race",
	"G04": "cycle loop-",
	"G05": "wrong-listing listing- change-accepted",
	"G06": "wrong-reach reach-",
	"G07": "reduced- wrong-listing wrong-reach loop- change- listing- reach- list- walk-missing walk-extra cycle",
	"G08": "result-changed wrong-listing wrong-reach listing- reach- list- loop- change- walk-missing walk-extra walk-duplicate walk-order cycle race",
	"G09": "wrong-listing wrong-reach listing- reach- list- loop- change- walk-missing walk-extra walk-duplicate walk-order walk-accepted walk-refused walk-error walk-after-stop race",
	"G10": "wrong-listing wrong-reach listing- reach- list- loop- change- walk- cycle race",
	"G11": "set- race",
	"G12": "change- loop- listing- reach- list- wrong-listing wrong-reach walk-accepted walk-refused walk-error",
	"E01": "parse- name-",
	"E02": "fault- parse-",
	"E03": "parse- marks input- fault- name- race",
	"E04": "tree-changed read-changed overlap input- race",
	"E05": "clone- tree-changed read-changed race",
	"E06": "read-changed print- children- race",
	"E07": "parse- marks",
	"E08": "reader- race",
	"E09": "parse- pristine marks",
}

func owns(prop, class string) bool {
	switch class {
	case "crash", "deadlock", "budget", "fatal":
		return true
	}
	list, ok := owned[prop]
	if !ok {
		return true
	}
	for _, c := range strings.Fields(list) {
		if c == class || strings.HasSuffix(c, "-") && strings.HasPrefix(class, c) {
			return true
		}
	}
	return false
}
