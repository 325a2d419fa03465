// generated by tools/gen_fields.py
F(Kml, "kml", "@hint", hint)
F(Document, "Document", "@id", id)
F(Document, "Document", "@targetId", targetid)
F(Document, "Document", "name", name)
F(Document, "Document", "visibility", visibility)
F(Document, "Document", "open", open)
F(Document, "Document", "address", address)
F(Document, "Document", "phoneNumber", phonenumber)
F(Document, "Document", "description", description)
F(Document, "Document", "styleUrl", styleurl)
F(Document, "Document", "gx:balloonVisibility", gx_balloonvisibility)
F(Folder, "Folder", "@id", id)
F(Folder, "Folder", "@targetId", targetid)
F(Folder, "Folder", "name", name)
F(Folder, "Folder", "visibility", visibility)
F(Folder, "Folder", "open", open)
F(Folder, "Folder", "address", address)
F(Folder, "Folder", "phoneNumber", phonenumber)
F(Folder, "Folder", "description", description)
F(Folder, "Folder", "styleUrl", styleurl)
F(Folder, "Folder", "gx:balloonVisibility", gx_balloonvisibility)
F(Placemark, "Placemark", "@id", id)
F(Placemark, "Placemark", "@targetId", targetid)
F(Placemark, "Placemark", "name", name)
F(Placemark, "Placemark", "visibility", visibility)
F(Placemark, "Placemark", "open", open)
F(Placemark, "Placemark", "address", address)
F(Placemark, "Placemark", "phoneNumber", phonenumber)
F(Placemark, "Placemark", "description", description)
F(Placemark, "Placemark", "styleUrl", styleurl)
F(Placemark, "Placemark", "gx:balloonVisibility", gx_balloonvisibility)
F(NetworkLink, "NetworkLink", "@id", id)
F(NetworkLink, "NetworkLink", "@targetId", targetid)
F(NetworkLink, "NetworkLink", "name", name)
F(NetworkLink, "NetworkLink", "visibility", visibility)
F(NetworkLink, "NetworkLink", "open", open)
F(NetworkLink, "NetworkLink", "address", address)
F(NetworkLink, "NetworkLink", "phoneNumber", phonenumber)
F(NetworkLink, "NetworkLink", "description", description)
F(NetworkLink, "NetworkLink", "styleUrl", styleurl)
F(NetworkLink, "NetworkLink", "gx:balloonVisibility", gx_balloonvisibility)
F(NetworkLink, "NetworkLink", "refreshVisibility", refreshvisibility)
F(NetworkLink, "NetworkLink", "flyToView", flytoview)
F(GroundOverlay, "GroundOverlay", "@id", id)
F(GroundOverlay, "GroundOverlay", "@targetId", targetid)
F(GroundOverlay, "GroundOverlay", "name", name)
F(GroundOverlay, "GroundOverlay", "visibility", visibility)
F(GroundOverlay, "GroundOverlay", "open", open)
F(GroundOverlay, "GroundOverlay", "address", address)
F(GroundOverlay, "GroundOverlay", "phoneNumber", phonenumber)
F(GroundOverlay, "GroundOverlay", "description", description)
F(GroundOverlay, "GroundOverlay", "styleUrl", styleurl)
F(GroundOverlay, "GroundOverlay", "gx:balloonVisibility", gx_balloonvisibility)
F(GroundOverlay, "GroundOverlay", "color", color)
F(GroundOverlay, "GroundOverlay", "drawOrder", draworder)
F(GroundOverlay, "GroundOverlay", "altitude", altitude)
F(GroundOverlay, "GroundOverlay", "altitudeMode", altitudemode)
F(GroundOverlay, "GroundOverlay", "gx:altitudeMode", gx_altitudemode)
F(PhotoOverlay, "PhotoOverlay", "@id", id)
F(PhotoOverlay, "PhotoOverlay", "@targetId", targetid)
F(PhotoOverlay, "PhotoOverlay", "name", name)
F(PhotoOverlay, "PhotoOverlay", "visibility", visibility)
F(PhotoOverlay, "PhotoOverlay", "open", open)
F(PhotoOverlay, "PhotoOverlay", "address", address)
F(PhotoOverlay, "PhotoOverlay", "phoneNumber", phonenumber)
F(PhotoOverlay, "PhotoOverlay", "description", description)
F(PhotoOverlay, "PhotoOverlay", "styleUrl", styleurl)
F(PhotoOverlay, "PhotoOverlay", "gx:balloonVisibility", gx_balloonvisibility)
F(PhotoOverlay, "PhotoOverlay", "color", color)
F(PhotoOverlay, "PhotoOverlay", "drawOrder", draworder)
F(PhotoOverlay, "PhotoOverlay", "rotation", rotation)
F(PhotoOverlay, "PhotoOverlay", "shape", shape)
F(ScreenOverlay, "ScreenOverlay", "@id", id)
F(ScreenOverlay, "ScreenOverlay", "@targetId", targetid)
F(ScreenOverlay, "ScreenOverlay", "name", name)
F(ScreenOverlay, "ScreenOverlay", "visibility", visibility)
F(ScreenOverlay, "ScreenOverlay", "open", open)
F(ScreenOverlay, "ScreenOverlay", "address", address)
F(ScreenOverlay, "ScreenOverlay", "phoneNumber", phonenumber)
F(ScreenOverlay, "ScreenOverlay", "description", description)
F(ScreenOverlay, "ScreenOverlay", "styleUrl", styleurl)
F(ScreenOverlay, "ScreenOverlay", "gx:balloonVisibility", gx_balloonvisibility)
F(ScreenOverlay, "ScreenOverlay", "color", color)
F(ScreenOverlay, "ScreenOverlay", "drawOrder", draworder)
F(ScreenOverlay, "ScreenOverlay", "rotation", rotation)
F(GxTour, "gx:Tour", "@id", id)
F(GxTour, "gx:Tour", "@targetId", targetid)
F(GxTour, "gx:Tour", "name", name)
F(GxTour, "gx:Tour", "visibility", visibility)
F(GxTour, "gx:Tour", "open", open)
F(GxTour, "gx:Tour", "address", address)
F(GxTour, "gx:Tour", "phoneNumber", phonenumber)
F(GxTour, "gx:Tour", "description", description)
F(GxTour, "gx:Tour", "styleUrl", styleurl)
F(GxTour, "gx:Tour", "gx:balloonVisibility", gx_balloonvisibility)
F(GxPlaylist, "gx:Playlist", "@id", id)
F(GxPlaylist, "gx:Playlist", "@targetId", targetid)
F(GxAnimatedUpdate, "gx:AnimatedUpdate", "@id", id)
F(GxAnimatedUpdate, "gx:AnimatedUpdate", "@targetId", targetid)
F(GxAnimatedUpdate, "gx:AnimatedUpdate", "gx:duration", gx_duration)
F(GxFlyTo, "gx:FlyTo", "@id", id)
F(GxFlyTo, "gx:FlyTo", "@targetId", targetid)
F(GxFlyTo, "gx:FlyTo", "gx:duration", gx_duration)
F(GxFlyTo, "gx:FlyTo", "gx:flyToMode", gx_flytomode)
F(GxWait, "gx:Wait", "@id", id)
F(GxWait, "gx:Wait", "@targetId", targetid)
F(GxWait, "gx:Wait", "gx:duration", gx_duration)
F(GxSoundCue, "gx:SoundCue", "@id", id)
F(GxSoundCue, "gx:SoundCue", "@targetId", targetid)
F(GxSoundCue, "gx:SoundCue", "href", href)
F(GxTourControl, "gx:TourControl", "@id", id)
F(GxTourControl, "gx:TourControl", "@targetId", targetid)
F(GxTourControl, "gx:TourControl", "gx:playMode", gx_playmode)
F(Point, "Point", "@id", id)
F(Point, "Point", "@targetId", targetid)
F(Point, "Point", "extrude", extrude)
F(Point, "Point", "altitudeMode", altitudemode)
F(Point, "Point", "gx:altitudeMode", gx_altitudemode)
F(LineString, "LineString", "@id", id)
F(LineString, "LineString", "@targetId", targetid)
F(LineString, "LineString", "extrude", extrude)
F(LineString, "LineString", "tessellate", tessellate)
F(LineString, "LineString", "altitudeMode", altitudemode)
F(LineString, "LineString", "gx:altitudeMode", gx_altitudemode)
F(LinearRing, "LinearRing", "@id", id)
F(LinearRing, "LinearRing", "@targetId", targetid)
F(LinearRing, "LinearRing", "extrude", extrude)
F(LinearRing, "LinearRing", "tessellate", tessellate)
F(LinearRing, "LinearRing", "altitudeMode", altitudemode)
F(LinearRing, "LinearRing", "gx:altitudeMode", gx_altitudemode)
F(Polygon, "Polygon", "@id", id)
F(Polygon, "Polygon", "@targetId", targetid)
F(Polygon, "Polygon", "extrude", extrude)
F(Polygon, "Polygon", "tessellate", tessellate)
F(Polygon, "Polygon", "altitudeMode", altitudemode)
F(Polygon, "Polygon", "gx:altitudeMode", gx_altitudemode)
F(MultiGeometry, "MultiGeometry", "@id", id)
F(MultiGeometry, "MultiGeometry", "@targetId", targetid)
F(GxTrack, "gx:Track", "@id", id)
F(GxTrack, "gx:Track", "@targetId", targetid)
F(GxTrack, "gx:Track", "altitudeMode", altitudemode)
F(GxTrack, "gx:Track", "gx:altitudeMode", gx_altitudemode)
F(GxMultiTrack, "gx:MultiTrack", "@id", id)
F(GxMultiTrack, "gx:MultiTrack", "@targetId", targetid)
F(GxMultiTrack, "gx:MultiTrack", "gx:interpolate", gx_interpolate)
F(Model, "Model", "@id", id)
F(Model, "Model", "@targetId", targetid)
F(Model, "Model", "altitudeMode", altitudemode)
F(Model, "Model", "gx:altitudeMode", gx_altitudemode)
F(Location, "Location", "@id", id)
F(Location, "Location", "@targetId", targetid)
F(Location, "Location", "longitude", longitude)
F(Location, "Location", "latitude", latitude)
F(Location, "Location", "altitude", altitude)
F(Orientation, "Orientation", "@id", id)
F(Orientation, "Orientation", "@targetId", targetid)
F(Orientation, "Orientation", "heading", heading)
F(Orientation, "Orientation", "tilt", tilt)
F(Orientation, "Orientation", "roll", roll)
F(Scale, "Scale", "@id", id)
F(Scale, "Scale", "@targetId", targetid)
F(Scale, "Scale", "x", x)
F(Scale, "Scale", "y", y)
F(Scale, "Scale", "z", z)
F(ResourceMap, "ResourceMap", "@id", id)
F(ResourceMap, "ResourceMap", "@targetId", targetid)
F(Alias, "Alias", "@id", id)
F(Alias, "Alias", "@targetId", targetid)
F(Alias, "Alias", "targetHref", targethref)
F(Alias, "Alias", "sourceHref", sourcehref)
F(LookAt, "LookAt", "@id", id)
F(LookAt, "LookAt", "@targetId", targetid)
F(LookAt, "LookAt", "longitude", longitude)
F(LookAt, "LookAt", "latitude", latitude)
F(LookAt, "LookAt", "altitude", altitude)
F(LookAt, "LookAt", "heading", heading)
F(LookAt, "LookAt", "tilt", tilt)
F(LookAt, "LookAt", "range", range)
F(LookAt, "LookAt", "altitudeMode", altitudemode)
F(LookAt, "LookAt", "gx:altitudeMode", gx_altitudemode)
F(Camera, "Camera", "@id", id)
F(Camera, "Camera", "@targetId", targetid)
F(Camera, "Camera", "longitude", longitude)
F(Camera, "Camera", "latitude", latitude)
F(Camera, "Camera", "altitude", altitude)
F(Camera, "Camera", "heading", heading)
F(Camera, "Camera", "tilt", tilt)
F(Camera, "Camera", "roll", roll)
F(Camera, "Camera", "altitudeMode", altitudemode)
F(Camera, "Camera", "gx:altitudeMode", gx_altitudemode)
F(LatLonBox, "LatLonBox", "@id", id)
F(LatLonBox, "LatLonBox", "@targetId", targetid)
F(LatLonBox, "LatLonBox", "north", north)
F(LatLonBox, "LatLonBox", "south", south)
F(LatLonBox, "LatLonBox", "east", east)
F(LatLonBox, "LatLonBox", "west", west)
F(LatLonBox, "LatLonBox", "rotation", rotation)
F(LatLonAltBox, "LatLonAltBox", "@id", id)
F(LatLonAltBox, "LatLonAltBox", "@targetId", targetid)
F(LatLonAltBox, "LatLonAltBox", "north", north)
F(LatLonAltBox, "LatLonAltBox", "south", south)
F(LatLonAltBox, "LatLonAltBox", "east", east)
F(LatLonAltBox, "LatLonAltBox", "west", west)
F(LatLonAltBox, "LatLonAltBox", "minAltitude", minaltitude)
F(LatLonAltBox, "LatLonAltBox", "maxAltitude", maxaltitude)
F(LatLonAltBox, "LatLonAltBox", "altitudeMode", altitudemode)
F(LatLonAltBox, "LatLonAltBox", "gx:altitudeMode", gx_altitudemode)
F(GxLatLonQuad, "gx:LatLonQuad", "@id", id)
F(GxLatLonQuad, "gx:LatLonQuad", "@targetId", targetid)
F(Lod, "Lod", "@id", id)
F(Lod, "Lod", "@targetId", targetid)
F(Lod, "Lod", "minLodPixels", minlodpixels)
F(Lod, "Lod", "maxLodPixels", maxlodpixels)
F(Lod, "Lod", "minFadeExtent", minfadeextent)
F(Lod, "Lod", "maxFadeExtent", maxfadeextent)
F(Region, "Region", "@id", id)
F(Region, "Region", "@targetId", targetid)
F(ViewVolume, "ViewVolume", "@id", id)
F(ViewVolume, "ViewVolume", "@targetId", targetid)
F(ViewVolume, "ViewVolume", "leftFov", leftfov)
F(ViewVolume, "ViewVolume", "rightFov", rightfov)
F(ViewVolume, "ViewVolume", "bottomFov", bottomfov)
F(ViewVolume, "ViewVolume", "topFov", topfov)
F(ViewVolume, "ViewVolume", "near", near)
F(ImagePyramid, "ImagePyramid", "@id", id)
F(ImagePyramid, "ImagePyramid", "@targetId", targetid)
F(ImagePyramid, "ImagePyramid", "tileSize", tilesize)
F(ImagePyramid, "ImagePyramid", "maxWidth", maxwidth)
F(ImagePyramid, "ImagePyramid", "maxHeight", maxheight)
F(ImagePyramid, "ImagePyramid", "gridOrigin", gridorigin)
F(Style, "Style", "@id", id)
F(Style, "Style", "@targetId", targetid)
F(IconStyle, "IconStyle", "@id", id)
F(IconStyle, "IconStyle", "@targetId", targetid)
F(IconStyle, "IconStyle", "color", color)
F(IconStyle, "IconStyle", "colorMode", colormode)
F(IconStyle, "IconStyle", "scale", scale)
F(IconStyle, "IconStyle", "heading", heading)
F(IconStyleIcon, "IconStyleIcon", "@id", id)
F(IconStyleIcon, "IconStyleIcon", "@targetId", targetid)
F(IconStyleIcon, "IconStyleIcon", "href", href)
F(IconStyleIcon, "IconStyleIcon", "gx:x", gx_x)
F(IconStyleIcon, "IconStyleIcon", "gx:y", gx_y)
F(IconStyleIcon, "IconStyleIcon", "gx:w", gx_w)
F(IconStyleIcon, "IconStyleIcon", "gx:h", gx_h)
F(LabelStyle, "LabelStyle", "@id", id)
F(LabelStyle, "LabelStyle", "@targetId", targetid)
F(LabelStyle, "LabelStyle", "color", color)
F(LabelStyle, "LabelStyle", "colorMode", colormode)
F(LabelStyle, "LabelStyle", "scale", scale)
F(LineStyle, "LineStyle", "@id", id)
F(LineStyle, "LineStyle", "@targetId", targetid)
F(LineStyle, "LineStyle", "color", color)
F(LineStyle, "LineStyle", "colorMode", colormode)
F(LineStyle, "LineStyle", "width", width)
F(PolyStyle, "PolyStyle", "@id", id)
F(PolyStyle, "PolyStyle", "@targetId", targetid)
F(PolyStyle, "PolyStyle", "color", color)
F(PolyStyle, "PolyStyle", "colorMode", colormode)
F(PolyStyle, "PolyStyle", "fill", fill)
F(PolyStyle, "PolyStyle", "outline", outline)
F(BalloonStyle, "BalloonStyle", "@id", id)
F(BalloonStyle, "BalloonStyle", "@targetId", targetid)
F(BalloonStyle, "BalloonStyle", "bgColor", bgcolor)
F(BalloonStyle, "BalloonStyle", "textColor", textcolor)
F(BalloonStyle, "BalloonStyle", "text", text)
F(BalloonStyle, "BalloonStyle", "displayMode", displaymode)
F(ListStyle, "ListStyle", "@id", id)
F(ListStyle, "ListStyle", "@targetId", targetid)
F(ListStyle, "ListStyle", "listItemType", listitemtype)
F(ListStyle, "ListStyle", "bgColor", bgcolor)
F(ListStyle, "ListStyle", "maxSnippetLines", maxsnippetlines)
F(ItemIcon, "ItemIcon", "@id", id)
F(ItemIcon, "ItemIcon", "@targetId", targetid)
F(ItemIcon, "ItemIcon", "href", href)
F(StyleMap, "StyleMap", "@id", id)
F(StyleMap, "StyleMap", "@targetId", targetid)
F(Pair, "Pair", "@id", id)
F(Pair, "Pair", "@targetId", targetid)
F(Pair, "Pair", "key", key)
F(Pair, "Pair", "styleUrl", styleurl)
F(Link, "Link", "@id", id)
F(Link, "Link", "@targetId", targetid)
F(Link, "Link", "href", href)
F(Link, "Link", "refreshMode", refreshmode)
F(Link, "Link", "refreshInterval", refreshinterval)
F(Link, "Link", "viewRefreshMode", viewrefreshmode)
F(Link, "Link", "viewRefreshTime", viewrefreshtime)
F(Link, "Link", "viewBoundScale", viewboundscale)
F(Link, "Link", "viewFormat", viewformat)
F(Link, "Link", "httpQuery", httpquery)
F(Icon, "Icon", "@id", id)
F(Icon, "Icon", "@targetId", targetid)
F(Icon, "Icon", "href", href)
F(Icon, "Icon", "refreshMode", refreshmode)
F(Icon, "Icon", "refreshInterval", refreshinterval)
F(Icon, "Icon", "viewRefreshMode", viewrefreshmode)
F(Icon, "Icon", "viewRefreshTime", viewrefreshtime)
F(Icon, "Icon", "viewBoundScale", viewboundscale)
F(Icon, "Icon", "viewFormat", viewformat)
F(Icon, "Icon", "httpQuery", httpquery)
F(Url, "Url", "@id", id)
F(Url, "Url", "@targetId", targetid)
F(Url, "Url", "href", href)
F(Url, "Url", "refreshMode", refreshmode)
F(Url, "Url", "refreshInterval", refreshinterval)
F(Url, "Url", "viewRefreshMode", viewrefreshmode)
F(Url, "Url", "viewRefreshTime", viewrefreshtime)
F(Url, "Url", "viewBoundScale", viewboundscale)
F(Url, "Url", "viewFormat", viewformat)
F(Url, "Url", "httpQuery", httpquery)
F(NetworkLinkControl, "NetworkLinkControl", "minRefreshPeriod", minrefreshperiod)
F(NetworkLinkControl, "NetworkLinkControl", "maxSessionLength", maxsessionlength)
F(NetworkLinkControl, "NetworkLinkControl", "cookie", cookie)
F(NetworkLinkControl, "NetworkLinkControl", "message", message)
F(NetworkLinkControl, "NetworkLinkControl", "linkName", linkname)
F(NetworkLinkControl, "NetworkLinkControl", "linkDescription", linkdescription)
F(NetworkLinkControl, "NetworkLinkControl", "expires", expires)
F(Update, "Update", "targetHref", targethref)
F(Data, "Data", "@id", id)
F(Data, "Data", "@targetId", targetid)
F(Data, "Data", "@name", name)
F(Data, "Data", "displayName", displayname)
F(Data, "Data", "value", value)
F(SchemaData, "SchemaData", "@id", id)
F(SchemaData, "SchemaData", "@targetId", targetid)
F(SchemaData, "SchemaData", "@schemaUrl", schemaurl)
F(SimpleData, "SimpleData", "@name", name)
F(SimpleData, "SimpleData", "#", text)
F(GxSimpleArrayData, "gx:SimpleArrayData", "@name", name)
F(Schema, "Schema", "@id", id)
F(Schema, "Schema", "@targetId", targetid)
F(Schema, "Schema", "@name", name)
F(SimpleField, "SimpleField", "@type", type)
F(SimpleField, "SimpleField", "@name", name)
F(SimpleField, "SimpleField", "displayName", displayname)
F(GxSimpleArrayField, "gx:SimpleArrayField", "@type", type)
F(GxSimpleArrayField, "gx:SimpleArrayField", "@name", name)
F(GxSimpleArrayField, "gx:SimpleArrayField", "displayName", displayname)
F(Snippet, "Snippet", "@maxLines", maxlines)
F(Snippet, "Snippet", "#", text)
F(LinkSnippet, "linkSnippet", "@maxLines", maxlines)
F(LinkSnippet, "linkSnippet", "#", text)
F(TimeSpan, "TimeSpan", "@id", id)
F(TimeSpan, "TimeSpan", "@targetId", targetid)
F(TimeSpan, "TimeSpan", "begin", begin)
F(TimeSpan, "TimeSpan", "end", end)
F(GxTimeSpan, "gx:TimeSpan", "@id", id)
F(GxTimeSpan, "gx:TimeSpan", "@targetId", targetid)
F(GxTimeSpan, "gx:TimeSpan", "begin", begin)
F(GxTimeSpan, "gx:TimeSpan", "end", end)
F(TimeStamp, "TimeStamp", "@id", id)
F(TimeStamp, "TimeStamp", "@targetId", targetid)
F(TimeStamp, "TimeStamp", "when", when)
F(GxTimeStamp, "gx:TimeStamp", "@id", id)
F(GxTimeStamp, "gx:TimeStamp", "@targetId", targetid)
F(GxTimeStamp, "gx:TimeStamp", "when", when)
F(HotSpot, "hotSpot", "@x", x)
F(HotSpot, "hotSpot", "@y", y)
F(HotSpot, "hotSpot", "@xunits", xunits)
F(HotSpot, "hotSpot", "@yunits", yunits)
F(OverlayXY, "overlayXY", "@x", x)
F(OverlayXY, "overlayXY", "@y", y)
F(OverlayXY, "overlayXY", "@xunits", xunits)
F(OverlayXY, "overlayXY", "@yunits", yunits)
F(ScreenXY, "screenXY", "@x", x)
F(ScreenXY, "screenXY", "@y", y)
F(ScreenXY, "screenXY", "@xunits", xunits)
F(ScreenXY, "screenXY", "@yunits", yunits)
F(RotationXY, "rotationXY", "@x", x)
F(RotationXY, "rotationXY", "@y", y)
F(RotationXY, "rotationXY", "@xunits", xunits)
F(RotationXY, "rotationXY", "@yunits", yunits)
F(Size, "size", "@x", x)
F(Size, "size", "@y", y)
F(Size, "size", "@xunits", xunits)
F(Size, "size", "@yunits", yunits)
F(AtomAuthor, "atom:author", "atom:name", name)
F(AtomAuthor, "atom:author", "atom:uri", uri)
F(AtomAuthor, "atom:author", "atom:email", email)
F(AtomLink, "atom:link", "@href", href)
F(AtomLink, "atom:link", "@rel", rel)
F(AtomLink, "atom:link", "@type", type)
F(AtomLink, "atom:link", "@hreflang", hreflang)
F(AtomLink, "atom:link", "@title", title)
F(AtomLink, "atom:link", "@length", length)
F(AtomCategory, "atom:category", "@term", term)
F(AtomCategory, "atom:category", "@scheme", scheme)
F(AtomCategory, "atom:category", "@label", label)
F(AtomContent, "atom:content", "@src", src)
F(AtomContent, "atom:content", "@type", type)
F(AtomEntry, "atom:entry", "atom:id", id)
F(AtomEntry, "atom:entry", "atom:title", title)
F(AtomEntry, "atom:entry", "atom:updated", updated)
F(AtomEntry, "atom:entry", "atom:summary", summary)
F(AtomFeed, "atom:feed", "atom:id", id)
F(AtomFeed, "atom:feed", "atom:title", title)
F(AtomFeed, "atom:feed", "atom:updated", updated)
F(XalCountry, "xal:Country", "xal:CountryNameCode", countrynamecode)
F(XalAdministrativeArea, "xal:AdministrativeArea", "xal:AdministrativeAreaName", administrativeareaname)
F(XalSubAdministrativeArea, "xal:SubAdministrativeArea", "xal:SubAdministrativeAreaName", subadministrativeareaname)
F(XalLocality, "xal:Locality", "xal:LocalityName", localityname)
F(XalThoroughfare, "xal:Thoroughfare", "xal:ThoroughfareNumber", thoroughfarenumber)
F(XalThoroughfare, "xal:Thoroughfare", "xal:ThoroughfareName", thoroughfarename)
F(XalPostalCode, "xal:PostalCode", "xal:PostalCodeNumber", postalcodenumber)
