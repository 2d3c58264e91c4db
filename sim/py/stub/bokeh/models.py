"""Stand-in."""
from bokeh._rec import Group as _Group, Source as ColumnDataSource, Thing, missing  # noqa: F401

BoxZoomTool = FullscreenTool = PanTool = ResetTool = SaveTool = WheelZoomTool = HoverTool = Thing
Range1d = TabPanel = Div = Span = BoxAnnotation = Legend = LegendItem = Thing
Row = Column = _Group


class Paragraph(Thing):
    pass


class Spacer(Thing):
    pass


class Band(Thing):
    is_band = True


class Tabs(Thing):
    tabs = ()


__getattr__ = missing('models')
