package c06

import (
	"testing"

	"pgregory.net/rapid"
	. "verifharness/hx"
)

func TestMain(m *testing.M) { MainOf(m) }

func TestMentions(t *testing.T) {
	Check(t, Prop[MentionsCase]{Name: "org-mentions",
		Gen: func(t *rapid.T) MentionsCase { return GenMentions(t, "org") }, Run: RunMentions})
}
