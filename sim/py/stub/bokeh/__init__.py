"""Stand-in for bokeh: figures keep what is drawn in them, saving a document writes what it shows to a file."""
