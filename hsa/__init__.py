"""Static analyser specific to harmonica: see DESIGN.md."""
