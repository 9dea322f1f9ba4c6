package c07

import (
	"testing"

	"pgregory.net/rapid"
	. "verifharness/hx"
)

func TestMain(m *testing.M) { MainOf(m) }

func TestMentions(t *testing.T) {
	Check(t, Prop[MentionsCase]{Name: "txt-mentions",
		Gen: func(t *rapid.T) MentionsCase { return GenMentions(t, "txt") }, Run: RunMentions})
}

func TestMixed(t *testing.T) {
	Check(t, Prop[MentionsCase]{Name: "mixed-mentions", Weight: 0.3,
		Gen: func(t *rapid.T) MentionsCase { return GenMentions(t, "mixed") }, Run: RunMentions})
}
