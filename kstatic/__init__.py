"""Static analyser for theoren/kiel: an abstract interpreter over /repo's syntax trees."""
