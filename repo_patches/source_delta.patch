From 6ec4b2e303aee99d201d1ae050aebb54b5c68c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:46 +0000
Subject: [PATCH 01/38] fix: read closed and usable of definition arcs

The error test was inverted, so closed was always false and usable was
true whenever the attribute could be parsed. An absent usable attribute
now means true, as XBRL Dimensions says.
---
 pkg/hydratables/definitionLinkbase.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/hydratables/definitionLinkbase.go b/pkg/hydratables/definitionLinkbase.go
index ac40a31..27b1b76 100644
--- a/pkg/hydratables/definitionLinkbase.go
+++ b/pkg/hydratables/definitionLinkbase.go
@@ -138,15 +138,16 @@ func hydrateDefinitionLink(linkbaseFile *serializables.DefinitionLinkbaseFile) [
 			closedAttr := attr.FindAttr(arc.XMLAttrs, "closed")
 			if closedAttr != nil {
 				closed, err := strconv.ParseBool(closedAttr.Value)
-				if err == nil {
+				if err != nil {
 					closed = false
 				}
 				newArc.Closed = closed
 			}
+			newArc.Usable = true
 			usableAttr := attr.FindAttr(arc.XMLAttrs, "usable")
 			if usableAttr != nil {
 				usable, err := strconv.ParseBool(usableAttr.Value)
-				if err == nil {
+				if err != nil {
 					usable = true
 				}
 				newArc.Usable = usable
-- 
2.43.0


From e8fc8cfa09400f55b4634c8897f99ceae8b51e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:40:01 +0000
Subject: [PATCH 02/38] fix: give up on typed members that cannot be read or
 resolved

A syntax error in a typed member made the token loop spin forever and an
element that is not in its schema was dereferenced as nil.
---
 pkg/hydratables/instance.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/hydratables/instance.go b/pkg/hydratables/instance.go
index b54f7f8..89c652a 100644
--- a/pkg/hydratables/instance.go
+++ b/pkg/hydratables/instance.go
@@ -348,6 +348,9 @@ func hydrateTypedMembers(dimensionHref string, typedMember string, instanceFile
 		if err == io.EOF {
 			break
 		}
+		if err != nil {
+			return nil, nil
+		}
 		switch token.(type) {
 		case xml.StartElement:
 			startElem, ok := token.(xml.StartElement)
@@ -357,7 +360,7 @@ func hydrateTypedMembers(dimensionHref string, typedMember string, instanceFile
 					continue
 				}
 				currHref, curr, err := h.NameQuery(startElemName.Space, startElemName.Local)
-				if err != nil {
+				if err != nil || curr == nil {
 					return nil, nil
 				}
 				order++
-- 
2.43.0


From 150b904c606c6a4549ba815abb06740e42e7a0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:40:01 +0000
Subject: [PATCH 03/38] fix: skip contexts without an entity

---
 pkg/hydratables/instance.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/hydratables/instance.go b/pkg/hydratables/instance.go
index 89c652a..ea9696e 100644
--- a/pkg/hydratables/instance.go
+++ b/pkg/hydratables/instance.go
@@ -134,6 +134,9 @@ func hydrateContexts(instanceFile *serializables.InstanceFile, h *Hydratable) []
 		}
 		item.ID = idAttr.Value
 		newEntity := Entity{}
+		if len(context.Entity) <= 0 {
+			continue
+		}
 		entity := context.Entity[0]
 		if len(entity.Identifier) <= 0 {
 			continue
-- 
2.43.0


From 87701a1a7f9822c58103abfd2a9aca316a3999de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:40:20 +0000
Subject: [PATCH 04/38] fix: hang typed domain elements under their own parent

After an element closed, its next sibling was recorded as its child.
---
 pkg/hydratables/instance.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/hydratables/instance.go b/pkg/hydratables/instance.go
index ea9696e..cf87fd0 100644
--- a/pkg/hydratables/instance.go
+++ b/pkg/hydratables/instance.go
@@ -340,7 +340,7 @@ func hydrateTypedMembers(dimensionHref string, typedMember string, instanceFile
 	order := 0
 	var stack Stack
 	stack = make([]*Concept, 0)
-	prevHref := dimensionHref
+	hrefs := []string{dimensionHref}
 	_, prev, err := h.HashQuery(dimensionHref)
 	dimension := prev
 	if err != nil {
@@ -369,12 +369,12 @@ func hydrateTypedMembers(dimensionHref string, typedMember string, instanceFile
 				order++
 				stack.Push(curr)
 				arcs = append(arcs, TypedDomainArc{
-					From:  prevHref,
+					From:  hrefs[len(hrefs)-1],
 					To:    currHref,
 					Order: float64(order),
 				})
 				prev = curr
-				prevHref = currHref
+				hrefs = append(hrefs, currHref)
 			}
 		case xml.EndElement:
 			endElem, ok := token.(xml.EndElement)
@@ -383,6 +383,7 @@ func hydrateTypedMembers(dimensionHref string, typedMember string, instanceFile
 				if !ok {
 					return nil, nil
 				}
+				hrefs = hrefs[:len(hrefs)-1]
 				endElemName := attr.Xmlns(instanceFile.XMLAttrs, endElem.Name.Space+":"+endElem.Name.Local)
 				if (popped.XMLName.Local != endElemName.Local) && (popped.XMLName.Space != endElemName.Space) {
 					return nil, nil
-- 
2.43.0


From 0039cd018d567f3c996202dce918ebd26d675628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:29 +0000
Subject: [PATCH 05/38] fix: look up a divided unit's denominator by its own
 name

---
 pkg/hydratables/measurement.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/hydratables/measurement.go b/pkg/hydratables/measurement.go
index 29a2838..2c76aca 100644
--- a/pkg/hydratables/measurement.go
+++ b/pkg/hydratables/measurement.go
@@ -171,7 +171,7 @@ func (h *Hydratable) FindMeasurement(unitRef string) (*Measurement, *Measurement
 					return queryUTR(unit.Divide.UnitNumerator.Measure.XMLName.Space,
 							unit.Divide.UnitNumerator.Measure.XMLName.Local),
 						queryUTR(unit.Divide.UnitDenominator.Measure.XMLName.Space,
-							unit.Divide.UnitNumerator.Measure.XMLName.Local)
+							unit.Divide.UnitDenominator.Measure.XMLName.Local)
 				}
 				return queryUTR(unit.Measure.XMLName.Space, unit.Measure.XMLName.Local), nil
 			}
-- 
2.43.0


From 7f70eed6a40c5c6fb36936c97a0b1bb1be9921ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:29 +0000
Subject: [PATCH 06/38] fix: collect a fact's footnotes from every footnote
 link

A footnote link without arcs hid the footnotes of all later links, and only
the first locator of a fact was followed.
---
 pkg/hydratables/fact.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pkg/hydratables/fact.go b/pkg/hydratables/fact.go
index 1ba33fc..4a8b293 100644
--- a/pkg/hydratables/fact.go
+++ b/pkg/hydratables/fact.go
@@ -46,15 +46,12 @@ func (h *Hydratable) GetFootnotes(fact *Fact) []*Footnote {
 	if fact == nil {
 		return make([]*Footnote, 0)
 	}
+	ret := make([]*Footnote, 0)
 	for _, instance := range h.Instances {
 		for _, footnoteLink := range instance.FootnoteLinks {
 			arcs := footnoteLink.FootnoteArcs
 			fnoteArcs := fnoteArcs(arcs)
 			root := graph.Tree(fnoteArcs, attr.FactFootnoteArcrole)
-			ret := make([]*Footnote, 0, len(arcs))
-			if len(root.Children) <= 0 {
-				return nil
-			}
 			for _, child := range root.Children {
 				href := mapFnoteLocatorToHref(&instance, child.Locator)
 				locatedID := href
@@ -81,12 +78,11 @@ func (h *Hydratable) GetFootnotes(fact *Fact) []*Footnote {
 							ret = append(ret, locatedFootnote)
 						}
 					}
-					return ret
 				}
 			}
 		}
 	}
-	return nil
+	return ret
 }
 
 func mapFnoteLocatorToHref(instance *Instance, locator string) string {
-- 
2.43.0


From 2ebfb171a81f8f646426fb4c30e6ef68d6709176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:29 +0000
Subject: [PATCH 07/38] fix: resolve footnote locators within their own link

Labels are local to an extended link; a label used in two footnote links was
always resolved with the first.
---
 pkg/hydratables/fact.go | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/pkg/hydratables/fact.go b/pkg/hydratables/fact.go
index 4a8b293..32c1f24 100644
--- a/pkg/hydratables/fact.go
+++ b/pkg/hydratables/fact.go
@@ -53,7 +53,7 @@ func (h *Hydratable) GetFootnotes(fact *Fact) []*Footnote {
 			fnoteArcs := fnoteArcs(arcs)
 			root := graph.Tree(fnoteArcs, attr.FactFootnoteArcrole)
 			for _, child := range root.Children {
-				href := mapFnoteLocatorToHref(&instance, child.Locator)
+				href := mapFnoteLocatorToHref(&footnoteLink, child.Locator)
 				locatedID := href
 				pos := strings.LastIndex(href, "#")
 				if pos > -1 {
@@ -64,7 +64,7 @@ func (h *Hydratable) GetFootnotes(fact *Fact) []*Footnote {
 				}
 				if locatedID == fact.ID {
 					for _, grandchild := range child.Children {
-						footnoteHref := mapFnoteLocatorToHref(&instance, grandchild.Locator)
+						footnoteHref := mapFnoteLocatorToHref(&footnoteLink, grandchild.Locator)
 						locatedFnoteID := footnoteHref
 						pos := strings.LastIndex(footnoteHref, "#")
 						if pos > -1 {
@@ -85,15 +85,12 @@ func (h *Hydratable) GetFootnotes(fact *Fact) []*Footnote {
 	return ret
 }
 
-func mapFnoteLocatorToHref(instance *Instance, locator string) string {
-	footnoteLinks := instance.FootnoteLinks
-	for _, footnoteLink := range footnoteLinks {
-		for _, loc := range footnoteLink.Locs {
-			if loc.Label == locator {
-				i := strings.Index(loc.Href, "#")
-				if i >= 0 {
-					return loc.Href
-				}
+func mapFnoteLocatorToHref(footnoteLink *FootnoteLink, locator string) string {
+	for _, loc := range footnoteLink.Locs {
+		if loc.Label == locator {
+			i := strings.Index(loc.Href, "#")
+			if i >= 0 {
+				return loc.Href
 			}
 		}
 	}
-- 
2.43.0


From a30c26aa9affa709daec1469fae4808f4b0822c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:29 +0000
Subject: [PATCH 08/38] fix: find the footnotes of an arc by their label

The end of a footnote arc names the label of the footnote, which need not be
its id.
---
 pkg/hydratables/fact.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pkg/hydratables/fact.go b/pkg/hydratables/fact.go
index 32c1f24..ef2efce 100644
--- a/pkg/hydratables/fact.go
+++ b/pkg/hydratables/fact.go
@@ -64,6 +64,11 @@ func (h *Hydratable) GetFootnotes(fact *Fact) []*Footnote {
 				}
 				if locatedID == fact.ID {
 					for _, grandchild := range child.Children {
+						labeled := findLabeledFootnotes(&footnoteLink, grandchild.Locator)
+						if len(labeled) > 0 {
+							ret = append(ret, labeled...)
+							continue
+						}
 						footnoteHref := mapFnoteLocatorToHref(&footnoteLink, grandchild.Locator)
 						locatedFnoteID := footnoteHref
 						pos := strings.LastIndex(footnoteHref, "#")
@@ -97,6 +102,16 @@ func mapFnoteLocatorToHref(footnoteLink *FootnoteLink, locator string) string {
 	return "#" + locator
 }
 
+func findLabeledFootnotes(footnoteLink *FootnoteLink, label string) []*Footnote {
+	ret := make([]*Footnote, 0)
+	for _, footnote := range footnoteLink.Footnotes {
+		if footnote.Label == label {
+			ret = append(ret, &footnote)
+		}
+	}
+	return ret
+}
+
 func (h *Hydratable) FindFootnote(id string) *Footnote {
 	for _, ins := range h.Instances {
 		for _, footnoteLink := range ins.FootnoteLinks {
-- 
2.43.0


From d8b3c08d06b1f697381c9828e4572a2d7b52c708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:51:36 +0000
Subject: [PATCH 09/38] fix: return an unprefixed name as a plain local name

Slicing from -1 panicked for every name without a prefix.
---
 pkg/attr/name.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/attr/name.go b/pkg/attr/name.go
index e6c56b2..0f891b5 100644
--- a/pkg/attr/name.go
+++ b/pkg/attr/name.go
@@ -46,7 +46,7 @@ func (np *NameProvider) ProvideXmlName(prefixed string) (*xml.Name, error) {
 	if i < 0 {
 		return &xml.Name{
 			Space: "",
-			Local: prefixed[i:],
+			Local: prefixed,
 		}, nil
 	}
 	prefix := prefix(prefixed[:i])
-- 
2.43.0


From 5c4a6b0b1c1fa95e8422bb728263af99631a748f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:51:43 +0000
Subject: [PATCH 10/38] fix: number clashing prefixes past the alphabet

The 27th clash of one prefix indexed the alphabet with -1.
---
 pkg/attr/name.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/attr/name.go b/pkg/attr/name.go
index 0f891b5..483a1c5 100644
--- a/pkg/attr/name.go
+++ b/pkg/attr/name.go
@@ -149,5 +149,5 @@ func toChar(i int) string {
 	if i < len(arr) {
 		return arr[i]
 	}
-	return arr[len(arr)-1] + toChar(i-len(arr)-1)
+	return arr[len(arr)-1] + toChar(i-len(arr))
 }
-- 
2.43.0


From 372e3d4de07933fb84fc3a501a2b22cc705dfc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:51:51 +0000
Subject: [PATCH 11/38] fix: reserve the output prefixes that were made up

A prefix invented for a clash could be handed out again to a namespace that
declares that very prefix.
---
 pkg/attr/name.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/attr/name.go b/pkg/attr/name.go
index 483a1c5..26c1de4 100644
--- a/pkg/attr/name.go
+++ b/pkg/attr/name.go
@@ -104,6 +104,7 @@ func processPrefixes(attrs []xmlquery.Attr) (map[prefix]space, map[prefix]prefix
 		t, currSpace := targetPrefix(attr, nameMap, prefixes)
 		nameMap[space(attr.Value)] = t
 		prefixes[o] = currSpace
+		prefixes[t] = currSpace
 		origin[o] = currSpace
 		target[o] = t
 	}
-- 
2.43.0


From 92d2bca1d293f4faf7bd5758f6f503a433b1be94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:53:48 +0000
Subject: [PATCH 12/38] fix: skip inline facts without a name or context

Loading such a document dereferenced a missing attribute.
---
 pkg/hydratables/document.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/hydratables/document.go b/pkg/hydratables/document.go
index a54e030..9d2ea81 100644
--- a/pkg/hydratables/document.go
+++ b/pkg/hydratables/document.go
@@ -37,6 +37,9 @@ func HydrateDocument(folder *serializables.Folder) (*Document, error) {
 			}
 			name := attr.FindXpathAttr(nonNumeric.Attr, "name")
 			contextRef := attr.FindXpathAttr(nonNumeric.Attr, "contextRef")
+			if name == nil || contextRef == nil {
+				return
+			}
 			xmlName, err := np.ProvideXmlName(name.Value)
 			if err != nil {
 				goErr = err
@@ -64,6 +67,9 @@ func HydrateDocument(folder *serializables.Folder) (*Document, error) {
 			}
 			name := attr.FindXpathAttr(nonFraction.Attr, "name")
 			contextRef := attr.FindXpathAttr(nonFraction.Attr, "contextRef")
+			if name == nil || contextRef == nil {
+				return
+			}
 			xmlName, err := np.ProvideXmlName(name.Value)
 			if err != nil {
 				goErr2 = err
-- 
2.43.0


From 62965052905f6b765946717d30ba37cad861ae3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:26 +0000
Subject: [PATCH 13/38] fix: skip facts whose context is missing when
 collecting the contexts of a grid

A fact with a dangling contextRef crashed the whole process while a
network was rendered.
---
 pkg/renderables/contexts.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/renderables/contexts.go b/pkg/renderables/contexts.go
index f1e311c..ae33e94 100644
--- a/pkg/renderables/contexts.go
+++ b/pkg/renderables/contexts.go
@@ -214,6 +214,9 @@ func getRelevantContexts(schemedEntity string, h *hydratables.Hydratable,
 				}
 				if factualEdgeHref == fact.Href {
 					context := getContext(&instance, fact.ContextRef)
+					if context == nil {
+						continue
+					}
 					entity := context.Entity
 					contextualSchemedEntity := entity.Identifier.Scheme + "/" + entity.Identifier.CharData
 					if contextualSchemedEntity == schemedEntity {
-- 
2.43.0


From 498f30548bd0b299baee83008655eca95ec586df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:34 +0000
Subject: [PATCH 14/38] fix: render a network when the entity's name is unknown

The error of the name lookup shadowed the error of the grids, so a
filer missing from names.json could not be rendered at all and a
failing grid went unnoticed.
---
 pkg/renderables/renderable.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/renderables/renderable.go b/pkg/renderables/renderable.go
index 67fcd8e..244c21e 100644
--- a/pkg/renderables/renderable.go
+++ b/pkg/renderables/renderable.go
@@ -91,9 +91,9 @@ func MarshalRenderable(slug string, h *hydratables.Hydratable) ([]byte, error) {
 				labelRoles = dedupLabelRole(labelRoles)
 				p, d, c = formatPeriod(p, d, c, langs)
 				name := schemedEntity.Scheme + "/" + schemedEntity.CharData
-				hydratedName, err := hydratables.EntityQuery(schemedEntity.Scheme,
+				hydratedName, nameErr := hydratables.EntityQuery(schemedEntity.Scheme,
 					schemedEntity.CharData)
-				if err == nil {
+				if nameErr == nil {
 					name = hydratedName
 				}
 				ret := Renderable{
-- 
2.43.0


From 1ea78effcc707e177bcfc027dac8715ed921fc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:41 +0000
Subject: [PATCH 15/38] fix: serialize what the three grids report back while
 rendering

The goroutines appended to the same label roles and languages without
a lock, so a language could be lost.
---
 pkg/renderables/renderable.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/renderables/renderable.go b/pkg/renderables/renderable.go
index 244c21e..060ebda 100644
--- a/pkg/renderables/renderable.go
+++ b/pkg/renderables/renderable.go
@@ -49,6 +49,7 @@ func MarshalRenderable(slug string, h *hydratables.Hydratable) ([]byte, error) {
 					langs      []Lang
 					err        error
 					wg         sync.WaitGroup
+					lock       sync.Mutex
 				)
 				wg.Add(3)
 				labelRoles = make([]LabelRole, 0, 20)
@@ -56,6 +57,8 @@ func MarshalRenderable(slug string, h *hydratables.Hydratable) ([]byte, error) {
 				go func(entity string, linkrole string) {
 					defer wg.Done()
 					localP, lr, ln, localError := pGrid(entity, linkrole, h, h, h, h)
+					lock.Lock()
+					defer lock.Unlock()
 					if localError != nil {
 						err = localError
 						return
@@ -67,6 +70,8 @@ func MarshalRenderable(slug string, h *hydratables.Hydratable) ([]byte, error) {
 				go func(entity string, linkrole string) {
 					defer wg.Done()
 					localD, lr, ln, localError := dGrid(entity, linkrole, h, h, h, h)
+					lock.Lock()
+					defer lock.Unlock()
 					if localError != nil {
 						err = localError
 						return
@@ -78,6 +83,8 @@ func MarshalRenderable(slug string, h *hydratables.Hydratable) ([]byte, error) {
 				go func(entity string, linkrole string) {
 					defer wg.Done()
 					localC, lr, ln, localError := cGrid(entity, linkrole, h, h, h, h)
+					lock.Lock()
+					defer lock.Unlock()
 					if localError != nil {
 						err = localError
 						return
-- 
2.43.0


From 4b18d0f281c3d06111bbeb12e36628a8a72fe8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:24 +0000
Subject: [PATCH 16/38] fix: show labels tagged with the language "en"

The empty case dropped them; only "en-US" labels were shown.
---
 pkg/renderables/label.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/renderables/label.go b/pkg/renderables/label.go
index 804ac2b..ee07b3d 100644
--- a/pkg/renderables/label.go
+++ b/pkg/renderables/label.go
@@ -65,8 +65,7 @@ func appendLabelModifiersFromHref(labelPack LabelPack, h *hydratables.Hydratable
 
 func appendLanguage(labelLinkLabel *hydratables.LabelLinkLabel, labelRole LabelRole, charData string, labelPack LabelPack) LabelPack {
 	switch labelLinkLabel.Lang {
-	case "en":
-	case "en-US":
+	case "en", "en-US":
 		labelPack[labelRole][English] = charData
 		break
 	case "es":
-- 
2.43.0


From 2134d4f1b44273b861889bada44b1409cc1644fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:31 +0000
Subject: [PATCH 17/38] fix: do not mark the domain of a dimension as its
 default

Only dimension-default arcs state a default.
---
 pkg/renderables/dimensionRelationshipSet.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/renderables/dimensionRelationshipSet.go b/pkg/renderables/dimensionRelationshipSet.go
index 2b0883c..d03b53f 100644
--- a/pkg/renderables/dimensionRelationshipSet.go
+++ b/pkg/renderables/dimensionRelationshipSet.go
@@ -103,7 +103,7 @@ func getDRS(schemedEntity string, linkroleURI string, h *hydratables.Hydratable)
 					case attr.DimensionDomainArcrole:
 						dd = &DimensionDomainConnection{
 							Order:    order,
-							Default:  true,
+							Default:  false,
 							Usable:   arc.Usable,
 							External: arc.TargetRole,
 						}
-- 
2.43.0


From 3aa9ae9d531a54033c3d650612cd27200a64ba2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:38 +0000
Subject: [PATCH 18/38] fix: offer every language in which some shown concept
 has a label

Merging label packs restarted the languages of a role for each concept,
so only those of the last concept with that role were offered.
---
 pkg/renderables/labelPack.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/renderables/labelPack.go b/pkg/renderables/labelPack.go
index 06afe3b..caf6cb6 100644
--- a/pkg/renderables/labelPack.go
+++ b/pkg/renderables/labelPack.go
@@ -38,7 +38,9 @@ func reduce(labelPacks []LabelPack) *LabelPack {
 	for i := 0; i < len(labelPacks); i++ {
 		item := labelPacks[i]
 		for labelRole, langPack := range item {
-			ret[labelRole] = make(LanguagePack)
+			if _, found := ret[labelRole]; !found {
+				ret[labelRole] = make(LanguagePack)
+			}
 			for lang, chardata := range langPack {
 				ret[labelRole][lang] = chardata
 			}
-- 
2.43.0


From 829ec63b9ccba32701c504cf6d2b4c195f3e9364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:09 +0000
Subject: [PATCH 19/38] fix: escape the text of rendered text blocks

The tokenizer hands out unescaped text, which was copied into the markup
as is: escaped text in a filing could reintroduce any tag or script.
---
 pkg/renderables/textBlock.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/renderables/textBlock.go b/pkg/renderables/textBlock.go
index 5fac5fe..421bf34 100644
--- a/pkg/renderables/textBlock.go
+++ b/pkg/renderables/textBlock.go
@@ -110,7 +110,7 @@ func renderTextBlock(fact *hydratables.Fact, cf ConceptFinder, mf MeasurementFin
 		case html.TextToken:
 			data := strings.TrimSpace(token.Data)
 			if len(data) > 0 {
-				tokenized += data + " "
+				tokenized += gohtml.EscapeString(data) + " "
 			}
 		case html.EndTagToken:
 			switch token.Data {
-- 
2.43.0


From be881cbd92f46693d795689fb94309d1e2650d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:18 +0000
Subject: [PATCH 20/38] fix: keep the rows of a network in the order of their
 arcs

The tree already lists the children of a node by the order of the arcs
that lead to them. Sorting them again by the order stored on the nodes
moved a subtree to the front when its own arcs came first.
---
 pkg/renderables/effectiveDomainGrid.go | 3 ---
 pkg/renderables/presentationGrid.go    | 5 -----
 2 files changed, 8 deletions(-)

diff --git a/pkg/renderables/effectiveDomainGrid.go b/pkg/renderables/effectiveDomainGrid.go
index e363f7b..0e098ca 100644
--- a/pkg/renderables/effectiveDomainGrid.go
+++ b/pkg/renderables/effectiveDomainGrid.go
@@ -80,9 +80,6 @@ func getRootDomains(schemedEntity string, linkroleURI string, h *hydratables.Hyd
 					if len(node.Children) <= 0 {
 						return
 					}
-					sort.SliceStable(node.Children, func(p, q int) bool {
-						return node.Children[p].Order < node.Children[q].Order
-					})
 					for _, c := range node.Children {
 						href := mapDLocatorToHref(linkroleURI, &definition, c.Locator)
 						piLabel := GetLabel(h, href)
diff --git a/pkg/renderables/presentationGrid.go b/pkg/renderables/presentationGrid.go
index 6cc34a8..a1b23fc 100644
--- a/pkg/renderables/presentationGrid.go
+++ b/pkg/renderables/presentationGrid.go
@@ -1,8 +1,6 @@
 package renderables
 
 import (
-	"sort"
-
 	"ecksbee.com/telefacts/internal/graph"
 	"ecksbee.com/telefacts/pkg/attr"
 	"ecksbee.com/telefacts/pkg/hydratables"
@@ -89,9 +87,6 @@ func getIndentedLabels(linkroleURI string, h *hydratables.Hydratable) ([]Indente
 					if len(node.Children) <= 0 {
 						return
 					}
-					sort.SliceStable(node.Children, func(p, q int) bool {
-						return node.Children[p].Order < node.Children[q].Order
-					})
 					for _, c := range node.Children {
 						href := mapPLocatorToHref(linkroleURI, &presentation, c.Locator)
 						iLabel := GetLabel(h, href)
-- 
2.43.0


From 69cbf72536cb9165bc2e53a81ab32557d327a712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:56 +0000
Subject: [PATCH 21/38] fix: head the rows of each typed dimension with that
 dimension

The first typed dimension was used for all of them, and a dimension
without any value emptied the dimension headers of the whole grid.
---
 pkg/renderables/contextualQuadrant.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/renderables/contextualQuadrant.go b/pkg/renderables/contextualQuadrant.go
index 1d3fead..2fa33dc 100644
--- a/pkg/renderables/contextualQuadrant.go
+++ b/pkg/renderables/contextualQuadrant.go
@@ -173,10 +173,9 @@ func getVoidQuadrant(relevantContexts []relevantContext, segmentTypedDomainTrees
 	var dimension *Dimension
 	var makeIndents func(node *myarcs.RArc, level int, isParenthesized bool)
 	makeIndents = func(node *myarcs.RArc, level int, isParenthesized bool) {
-		if dimension == nil && node.Locator != "" {
+		if level == 1 {
 			mappedDimension, ok := allDimensionMap[node.Locator]
 			if !ok {
-				ret = VoidQuadrant{}
 				return
 			}
 			dimension = mappedDimension
-- 
2.43.0


From db11e6922bc173e7118bc2cccc14551e6aaa9214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:04 +0000
Subject: [PATCH 22/38] fix: keep dimension headers when a typed domain element
 has no text

An element that only holds other elements emptied the headers of the
whole grid.
---
 pkg/renderables/contextualQuadrant.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/pkg/renderables/contextualQuadrant.go b/pkg/renderables/contextualQuadrant.go
index 2fa33dc..6b78741 100644
--- a/pkg/renderables/contextualQuadrant.go
+++ b/pkg/renderables/contextualQuadrant.go
@@ -191,16 +191,14 @@ func getVoidQuadrant(relevantContexts []relevantContext, segmentTypedDomainTrees
 		if level > 1 {
 			if node.Locator != "" {
 				typedDomain, ok := allTypedDomainMap[node.Locator]
-				if !ok {
-					ret = VoidQuadrant{}
-					return
+				if ok {
+					ret = append(ret, &VoidCell{
+						IsParenthesized: isParenthesized,
+						Indentation:     level,
+						Dimension:       *dimension,
+						TypedDomain:     typedDomain,
+					})
 				}
-				ret = append(ret, &VoidCell{
-					IsParenthesized: isParenthesized,
-					Indentation:     level,
-					Dimension:       *dimension,
-					TypedDomain:     typedDomain,
-				})
 			}
 		}
 		if len(node.Children) <= 0 {
-- 
2.43.0


From ce344d25f189381fca155c47b774c83f7b83a67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:11 +0000
Subject: [PATCH 23/38] fix: show typed dimensions when one typed member has no
 content

A single empty typed member removed the typed dimensions of every
context from the grid.
---
 pkg/renderables/contextualQuadrant.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/pkg/renderables/contextualQuadrant.go b/pkg/renderables/contextualQuadrant.go
index 6b78741..23c8e72 100644
--- a/pkg/renderables/contextualQuadrant.go
+++ b/pkg/renderables/contextualQuadrant.go
@@ -218,18 +218,12 @@ func getVoidQuadrant(relevantContexts []relevantContext, segmentTypedDomainTrees
 
 func reduceTrees(trees []myarcs.RArc) myarcs.RArc {
 	ret := myarcs.RArc{}
-	hasNonblankRoots := true
 	dimensions := make([]*myarcs.RArc, 0, len(trees))
 	for _, root := range trees {
 		if root.Locator == "" && len(root.Children) > 0 {
 			dimensions = append(dimensions, root.Children...)
-		} else {
-			hasNonblankRoots = false
 		}
 	}
-	if !hasNonblankRoots {
-		return myarcs.RArc{}
-	}
 	ret.Order = 0
 	ret.Locator = ""
 	ret.Children = make([]*myarcs.RArc, 0)
-- 
2.43.0


From ace7b556cbe0d77c38d72a7bf660815d43f3b370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:18 +0000
Subject: [PATCH 24/38] fix: offer the languages of typed domain labels

---
 pkg/renderables/typedMember.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/renderables/typedMember.go b/pkg/renderables/typedMember.go
index 67c642b..aaf84ba 100644
--- a/pkg/renderables/typedMember.go
+++ b/pkg/renderables/typedMember.go
@@ -29,6 +29,7 @@ func getTypedMember(typedMember hydratables.TypedMember, dimension Dimension,
 	}
 	for typedDomain, typedMember := range typedMember.TypedMembersMap {
 		typedDomainLabel := GetLabel(h, typedDomain)
+		labelPacks = append(labelPacks, typedDomainLabel)
 		ret = append(ret, RelevantMember{
 			Dimension: dimension,
 			TypedDomain: &TypedDomain{
-- 
2.43.0


From d5299e4d760dc1c067f621f4e0ccc641c1297bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:33 +0000
Subject: [PATCH 25/38] fix: render percentages from the nearest decimal

Rounding towards zero in binary made 0.07 show as 6.99%.
---
 pkg/renderables/fact.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/renderables/fact.go b/pkg/renderables/fact.go
index 920bb57..dfec783 100644
--- a/pkg/renderables/fact.go
+++ b/pkg/renderables/fact.go
@@ -61,11 +61,11 @@ func SigFigs(value string, precision hydratables.Precision, concept *hydratables
 }
 
 func renderPercent(value string, precision hydratables.Precision, g rune) (*FactExpression, error) {
-	f, _, err := big.ParseFloat(value, 10, digits.PREC_BITS, big.ToZero)
+	f, _, err := big.ParseFloat(value, 10, 2*digits.PREC_BITS, big.ToNearestEven)
 	if err != nil {
 		return nil, fmt.Errorf("failed to convert fact to numeric expression")
 	}
-	percent := f.Mul(f, big.NewFloat(100).SetPrec(digits.PREC_BITS)).Text('f', -1)
+	percent := f.Mul(f, big.NewFloat(100)).SetPrec(digits.PREC_BITS).Text('f', -1)
 	return renderNumeric(percent, precision, g)
 }
 
-- 
2.43.0


From 3e66855a9771ab22d86970f83524a46de2b1cd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:00 +0000
Subject: [PATCH 26/38] fix: number footnotes in the order in which they are
 listed

The numbers of each cell and the list of texts came from separate
iterations over a map, so a marker could point at any footnote.
---
 pkg/renderables/factualQuadrant.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/renderables/factualQuadrant.go b/pkg/renderables/factualQuadrant.go
index b6b1922..07c4748 100644
--- a/pkg/renderables/factualQuadrant.go
+++ b/pkg/renderables/factualQuadrant.go
@@ -26,6 +26,7 @@ func getFactualQuadrant(hrefs []string, relevantContexts []relevantContext,
 	ret := make([][]*MultilingualFact, rowCount)
 	footnoteGrid := make([][][]*hydratables.Footnote, rowCount)
 	idMap := make(map[string]*hydratables.Footnote)
+	ids := make([]string, 0)
 	for i := 0; i < rowCount; i++ {
 		row := make([]*MultilingualFact, colCount)
 		footnoteRow := make([][]*hydratables.Footnote, colCount)
@@ -39,6 +40,7 @@ func getFactualQuadrant(hrefs []string, relevantContexts []relevantContext,
 			for _, footnote := range footnotes {
 				if _, found := idMap[footnote.ID]; !found {
 					idMap[footnote.ID] = footnote
+					ids = append(ids, footnote.ID)
 				}
 			}
 			row[j] = render(fact, conceptFinder, measurementFinder, langs)
@@ -55,7 +57,7 @@ func getFactualQuadrant(hrefs []string, relevantContexts []relevantContext,
 			footnotes := footnoteGrid[i][j]
 			k := 1
 			ints := make([]int, 0)
-			for id := range idMap {
+			for _, id := range ids {
 				for _, footnote := range footnotes {
 					if footnote.ID == id {
 						ints = append(ints, k)
@@ -67,8 +69,8 @@ func getFactualQuadrant(hrefs []string, relevantContexts []relevantContext,
 			grid[i][j] = ints
 		}
 	}
-	for _, footnote := range idMap {
-		arr = append(arr, footnote.InnerHtml)
+	for _, id := range ids {
+		arr = append(arr, idMap[id].InnerHtml)
 	}
 	return ret, grid, arr
 }
-- 
2.43.0


From f6f12178c07e547646161c095728a691a895831b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:43 +0000
Subject: [PATCH 27/38] fix: list the dimensions of a network once

The arcs were resolved against every definition linkbase, so a filing
with several of them showed extra dimensions named after locators.
---
 pkg/renderables/effectiveDomainGrid.go | 33 +++++++++++++-------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/pkg/renderables/effectiveDomainGrid.go b/pkg/renderables/effectiveDomainGrid.go
index 0e098ca..fe735d4 100644
--- a/pkg/renderables/effectiveDomainGrid.go
+++ b/pkg/renderables/effectiveDomainGrid.go
@@ -94,7 +94,7 @@ func getRootDomains(schemedEntity string, linkroleURI string, h *hydratables.Hyd
 				}
 				dArcs := dArcs(arcs)
 				domainMemberNetwork := graph.Tree(dArcs, attr.DomainMemberArcrole)
-				effectiveDimensions, effectiveDimensionHrefs, edLabelRoles, edLangs := getEffectiveDimensions(linkroleURI, arcs, h)
+				effectiveDimensions, effectiveDimensionHrefs, edLabelRoles, edLangs := getEffectiveDimensions(linkroleURI, arcs, &definition, h)
 				labelRoles = append(labelRoles, edLabelRoles...)
 				langs = append(langs, edLangs...)
 				dimensionDomainNetwork := graph.Tree(dArcs, attr.DimensionDomainArcrole)
@@ -154,27 +154,26 @@ func getRootDomains(schemedEntity string, linkroleURI string, h *hydratables.Hyd
 }
 
 func getEffectiveDimensions(linkroleURI string,
-	arcs []hydratables.DefinitionArc, h *hydratables.Hydratable) ([]EffectiveDimension, []string, []LabelRole, []Lang) {
+	arcs []hydratables.DefinitionArc, definition *hydratables.DefinitionLinkbase,
+	h *hydratables.Hydratable) ([]EffectiveDimension, []string, []LabelRole, []Lang) {
 	labelPacks := []LabelPack{}
 	effectiveDimensionMap := make(map[string]bool)
 	effectiveDimensions := make([]EffectiveDimension, 0, len(arcs))
 	effectiveDimensionHrefs := make([]string, 0, len(arcs))
-	for _, definition := range h.DefinitionLinkbases {
-		for _, arc := range arcs {
-			if arc.Arcrole == attr.HypercubeDimensionArcrole {
-				dim := mapDLocatorToHref(linkroleURI, &definition, arc.To)
-				if effectiveDimensionMap[dim] {
-					continue
-				}
-				effectiveDimensionMap[dim] = true
-				effectiveDimensionHrefs = append(effectiveDimensionHrefs, dim)
-				dimLabelPack := GetLabel(h, dim)
-				labelPacks = append(labelPacks, dimLabelPack)
-				effectiveDimensions = append(effectiveDimensions, EffectiveDimension{
-					Href:  dim,
-					Label: dimLabelPack,
-				})
+	for _, arc := range arcs {
+		if arc.Arcrole == attr.HypercubeDimensionArcrole {
+			dim := mapDLocatorToHref(linkroleURI, definition, arc.To)
+			if effectiveDimensionMap[dim] {
+				continue
 			}
+			effectiveDimensionMap[dim] = true
+			effectiveDimensionHrefs = append(effectiveDimensionHrefs, dim)
+			dimLabelPack := GetLabel(h, dim)
+			labelPacks = append(labelPacks, dimLabelPack)
+			effectiveDimensions = append(effectiveDimensions, EffectiveDimension{
+				Href:  dim,
+				Label: dimLabelPack,
+			})
 		}
 	}
 	reduced := reduce(labelPacks)
-- 
2.43.0


From 36f07a9ed8af104c29ae172e0fed4f777fc85757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:50 +0000
Subject: [PATCH 28/38] fix: exclude only the defaults of the dimension at hand

An excluding hypercube struck through the default members of every
dimension.
---
 pkg/renderables/effectiveDomainGrid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/renderables/effectiveDomainGrid.go b/pkg/renderables/effectiveDomainGrid.go
index fe735d4..63faf88 100644
--- a/pkg/renderables/effectiveDomainGrid.go
+++ b/pkg/renderables/effectiveDomainGrid.go
@@ -329,7 +329,7 @@ func getEffectiveDomain(primaryItemHref string, effectiveDimensionHref string,
 			if exclusiveHypercubeHref == mapDLocatorToHref(hypercubeDimensionNode.Locator) {
 				for _, dimensionDefaultNode := range dimensionDefaultNetwork.Children {
 					defaultDimensionHref := mapDLocatorToHref(dimensionDefaultNode.Locator)
-					if excludedDefaultMembersMap[defaultDimensionHref] {
+					if defaultDimensionHref != effectiveDimensionHref {
 						continue
 					}
 					for _, defaultMemberNode := range dimensionDefaultNode.Children {
-- 
2.43.0


From 0e51a8ba01790893b0fd55665da4e76a76b10acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:57 +0000
Subject: [PATCH 29/38] fix: list only the members of the dimension's own
 domains

The effective domain of a dimension held the members of every explicit
domain in the network.
---
 pkg/renderables/effectiveDomainGrid.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pkg/renderables/effectiveDomainGrid.go b/pkg/renderables/effectiveDomainGrid.go
index 63faf88..09498e1 100644
--- a/pkg/renderables/effectiveDomainGrid.go
+++ b/pkg/renderables/effectiveDomainGrid.go
@@ -405,8 +405,12 @@ func getEffectiveDomain(primaryItemHref string, effectiveDimensionHref string,
 						if inclusiveDimensionHref != mapDLocatorToHref(dimensionDomainNode.Locator) {
 							continue
 						}
-						for _, node := range explicitDomainNetwork.Children {
-							traverseExplicitDomainNetwork(node, true)
+						for _, domainNode := range dimensionDomainNode.Children {
+							for _, node := range explicitDomainNetwork.Children {
+								if node.Locator == domainNode.Locator {
+									traverseExplicitDomainNetwork(node, true)
+								}
+							}
 						}
 					}
 				}
@@ -425,8 +429,12 @@ func getEffectiveDomain(primaryItemHref string, effectiveDimensionHref string,
 						if exclusiveDimensionHref != mapDLocatorToHref(dimensionDomainNode.Locator) {
 							continue
 						}
-						for _, node := range explicitDomainNetwork.Children {
-							traverseExplicitDomainNetwork(node, false)
+						for _, domainNode := range dimensionDomainNode.Children {
+							for _, node := range explicitDomainNetwork.Children {
+								if node.Locator == domainNode.Locator {
+									traverseExplicitDomainNetwork(node, false)
+								}
+							}
 						}
 					}
 				}
-- 
2.43.0


From ff60e8a4ffcc37098d1f9aae1f48677ba71c2d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:05 +0000
Subject: [PATCH 30/38] fix: offer the languages of the members of effective
 domains

---
 pkg/renderables/effectiveDomainGrid.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/renderables/effectiveDomainGrid.go b/pkg/renderables/effectiveDomainGrid.go
index 09498e1..e6186d9 100644
--- a/pkg/renderables/effectiveDomainGrid.go
+++ b/pkg/renderables/effectiveDomainGrid.go
@@ -365,6 +365,7 @@ func getEffectiveDomain(primaryItemHref string, effectiveDimensionHref string,
 			}
 			membersMap[memberHref] = true
 			efMemLabel := GetLabel(h, memberHref)
+			labelPacks = append(labelPacks, efMemLabel)
 			ret = append(ret, EffectiveMember{
 				Href:            memberHref,
 				Label:           efMemLabel,
@@ -379,6 +380,7 @@ func getEffectiveDomain(primaryItemHref string, effectiveDimensionHref string,
 			}
 			excludedMembersMap[memberHref] = true
 			efMemLabel := GetLabel(h, memberHref)
+			labelPacks = append(labelPacks, efMemLabel)
 			ret = append(ret, EffectiveMember{
 				Href:            memberHref,
 				Label:           efMemLabel,
-- 
2.43.0


From 7f471d5a06845853e633ed9b7cf2bdabad344cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:05 +0000
Subject: [PATCH 31/38] fix: answer fact requests on filings without an inline
 document

Asking such a filing for a fact crashed instead of yielding no fact.
---
 pkg/renderables/expressable.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/renderables/expressable.go b/pkg/renderables/expressable.go
index 36df4e0..34db3a3 100644
--- a/pkg/renderables/expressable.go
+++ b/pkg/renderables/expressable.go
@@ -19,6 +19,9 @@ type Expressable struct {
 }
 
 func MarshalExpressable(name string, contextref string, h *hydratables.Hydratable) ([]byte, error) {
+	if h.Document == nil {
+		return nil, nil
+	}
 	xmlname, found := h.Document.NamespaceMap[name]
 	if !found {
 		return nil, nil
-- 
2.43.0


From 559cfc33b7a05cdd46572eb6edab6ce55d214809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:12 +0000
Subject: [PATCH 32/38] fix: look for the context of a requested fact in every
 instance

Only one arbitrary instance was searched, and a context that it does not
hold crashed the request.
---
 pkg/renderables/expressable.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pkg/renderables/expressable.go b/pkg/renderables/expressable.go
index 34db3a3..7783b83 100644
--- a/pkg/renderables/expressable.go
+++ b/pkg/renderables/expressable.go
@@ -30,11 +30,6 @@ func MarshalExpressable(name string, contextref string, h *hydratables.Hydratabl
 	if !found {
 		return nil, nil
 	}
-	var extracted *hydratables.Instance
-	for _, instance := range h.Instances {
-		extracted = &instance
-		break
-	}
 	href, _, err := h.NameQuery(xmlname.Space, xmlname.Local)
 	if err != nil {
 		return nil, err
@@ -44,7 +39,16 @@ func MarshalExpressable(name string, contextref string, h *hydratables.Hydratabl
 	if hydratedFact == nil {
 		return nil, nil
 	}
-	context := getContext(extracted, contextref)
+	var context *hydratables.Context
+	for _, instance := range h.Instances {
+		context = getContext(&instance, contextref)
+		if context != nil {
+			break
+		}
+	}
+	if context == nil {
+		return nil, nil
+	}
 	period := periodMultilingualString(labels, context)
 	entity := stringify(&Entity{
 		Scheme:   context.Entity.Identifier.Scheme,
-- 
2.43.0


From 88ed9234d6497043c3e8d46cc75ec70afa020249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:00 +0000
Subject: [PATCH 33/38] fix: refuse taxonomy URLs that lead outside the
 taxonomy set

A URL with a ".." path element or host was joined into the store's path,
so a lookup could name any file of the machine.
---
 pkg/serializables/global.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/serializables/global.go b/pkg/serializables/global.go
index 0402818..1170c3a 100644
--- a/pkg/serializables/global.go
+++ b/pkg/serializables/global.go
@@ -37,9 +37,15 @@ func UrlToFilename(urlStr string) (string, error) {
 	if len(hostname) <= 0 {
 		return "", fmt.Errorf("empty hostname")
 	}
+	if hostname == "." || hostname == ".." {
+		return "", fmt.Errorf("invalid hostname")
+	}
 	dest = filepath.Join(dest, hostname)
 	var splits = strings.Split(urlPath.Path, "/")
 	for _, split := range splits {
+		if split == ".." {
+			return "", fmt.Errorf("path leaves the taxonomy set")
+		}
 		dest = filepath.Join(dest, split)
 	}
 	return filepath.Join(GlobalTaxonomySetPath, "concepts", dest), nil
-- 
2.43.0


From 028b866cdff5adefb391b128709711dbf676e5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:00 +0000
Subject: [PATCH 34/38] fix: report a file that is missing from the taxonomy
 set

The error was shadowed, so a missing file was answered with no bytes and
no error.
---
 pkg/serializables/global.go | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/pkg/serializables/global.go b/pkg/serializables/global.go
index 1170c3a..864f521 100644
--- a/pkg/serializables/global.go
+++ b/pkg/serializables/global.go
@@ -56,17 +56,7 @@ func DiscoverGlobalFile(urlStr string) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	var ret []byte
-	if file, err := os.Stat(dest); err == nil {
-		dirString, _ := filepath.Split(dest)
-		filename := file.Name()
-		globalFilePath := filepath.Join(dirString, filename)
-		ret, err = os.ReadFile(globalFilePath)
-		if err == nil {
-			return ret, nil
-		}
-	}
-	return nil, err
+	return os.ReadFile(dest)
 }
 
 func DiscoverGlobalSchema(urlStr string) (*SchemaFile, error) {
-- 
2.43.0


From 9e1dc7c71163a48776371f5d9ed78975aaeaa836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:00 +0000
Subject: [PATCH 35/38] fix: end the discovery of schemas that import each
 other

Every reference to a schema was followed again, so two schemas that import
each other were read without end. A schema is now kept when it is first
read and its references are followed once.
---
 pkg/serializables/folder.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/pkg/serializables/folder.go b/pkg/serializables/folder.go
index d788093..2c0c5f3 100644
--- a/pkg/serializables/folder.go
+++ b/pkg/serializables/folder.go
@@ -126,6 +126,9 @@ func (folder *Folder) schemaRef(file *InstanceFile) {
 			folder.wLock.Lock()
 			folder.Namespaces[targetNS.Value] = hrefAttr.Value
 			folder.wLock.Unlock()
+			if !folder.keepSchema(hrefAttr.Value, discoveredSchema) {
+				return
+			}
 			var wwg sync.WaitGroup
 			wwg.Add(3)
 			go func() {
@@ -141,14 +144,21 @@ func (folder *Folder) schemaRef(file *InstanceFile) {
 				folder.linkbaseRefSchema(discoveredSchema)
 			}()
 			wwg.Wait()
-			folder.wLock.Lock()
-			folder.Schemas[hrefAttr.Value] = *discoveredSchema
-			folder.wLock.Unlock()
 		}(iitem)
 	}
 	wg.Wait()
 }
 
+func (folder *Folder) keepSchema(name string, file *SchemaFile) bool {
+	folder.wLock.Lock()
+	defer folder.wLock.Unlock()
+	if _, found := folder.Schemas[name]; found {
+		return false
+	}
+	folder.Schemas[name] = *file
+	return true
+}
+
 func (folder *Folder) includeSchema(file *SchemaFile) {
 	if file == nil {
 		return
@@ -185,6 +195,9 @@ func (folder *Folder) includeSchema(file *SchemaFile) {
 			folder.wLock.Lock()
 			folder.Namespaces[targetNS.Value] = schemaLocationAttr.Value
 			folder.wLock.Unlock()
+			if !folder.keepSchema(schemaLocationAttr.Value, discoveredSchema) {
+				return
+			}
 			var wwg sync.WaitGroup
 			wwg.Add(3)
 			go func() {
@@ -200,9 +213,6 @@ func (folder *Folder) includeSchema(file *SchemaFile) {
 				folder.linkbaseRefSchema(discoveredSchema)
 			}()
 			wwg.Wait()
-			folder.wLock.Lock()
-			folder.Schemas[schemaLocationAttr.Value] = *discoveredSchema
-			folder.wLock.Unlock()
 		}(iitem)
 	}
 	wg.Wait()
@@ -244,6 +254,9 @@ func (folder *Folder) importSchema(file *SchemaFile) {
 			if err != nil {
 				return
 			}
+			if !folder.keepSchema(schemaLocationAttr.Value, discoveredSchema) {
+				return
+			}
 			var wwg sync.WaitGroup
 			wwg.Add(3)
 			go func() {
@@ -259,9 +272,6 @@ func (folder *Folder) importSchema(file *SchemaFile) {
 				folder.linkbaseRefSchema(discoveredSchema)
 			}()
 			wwg.Wait()
-			folder.wLock.Lock()
-			folder.Schemas[schemaLocationAttr.Value] = *discoveredSchema
-			folder.wLock.Unlock()
 		}(iitem)
 	}
 	wg.Wait()
-- 
2.43.0


From b90b6cb5f6b154b8964d5e7156343bf44a369ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:29 +0000
Subject: [PATCH 36/38] fix: report an inline document that cannot be read

A filing with images whose inline document cannot be decoded crashed
instead of reporting the error.
---
 pkg/serializables/folder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/serializables/folder.go b/pkg/serializables/folder.go
index 2c0c5f3..e3448a9 100644
--- a/pkg/serializables/folder.go
+++ b/pkg/serializables/folder.go
@@ -57,12 +57,12 @@ func Discover(id string) (*Folder, error) {
 			return nil, err
 		}
 		doc := DecodeIxbrlFile(data)
-		if len(ret.Images) > 0 {
-			doc.Bytes = TransformInlineImages(data, ret.Images)
-		}
 		if doc == nil {
 			return nil, fmt.Errorf("failed to decode IXBRL source document")
 		}
+		if len(ret.Images) > 0 {
+			doc.Bytes = TransformInlineImages(data, ret.Images)
+		}
 		ret.Document = doc
 		extracted := filepath.Join(workingDir, entryFileName+".xml")
 		if _, err := os.Stat(extracted); errors.Is(err, os.ErrNotExist) {
-- 
2.43.0


From ab0d5699cff43769204020e848d87db954108921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:35 +0000
Subject: [PATCH 37/38] fix: do not remember failed computations in the cache

The result of a failed computation was stored, so the same request was
later answered with success and no content, or crashed on a filing that
could not be loaded.
---
 pkg/cache/cache.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/cache/cache.go b/pkg/cache/cache.go
index a0cdfd3..1162cde 100644
--- a/pkg/cache/cache.go
+++ b/pkg/cache/cache.go
@@ -49,6 +49,9 @@ func MarshalExpressable(id string, name string, contextref string) ([]byte, erro
 	}
 	lock.RUnlock()
 	byteArr, err := renderables.MarshalExpressable(name, contextref, h)
+	if err != nil {
+		return nil, err
+	}
 	go func() {
 		if dry {
 			return
@@ -91,6 +94,9 @@ func MarshalRenderable(id string, hash string) ([]byte, error) {
 		}
 	}
 	byteArr, err := renderables.MarshalRenderable(hash, h)
+	if err != nil {
+		return nil, err
+	}
 	go func() {
 		if dry {
 			return
@@ -117,6 +123,9 @@ func MarshalCatalog(id string) ([]byte, error) {
 	}
 	lock.RUnlock()
 	byteArr, err := renderables.MarshalCatalog(h)
+	if err != nil {
+		return nil, err
+	}
 	go func() {
 		if dry {
 			return
@@ -143,6 +152,9 @@ func hydratable(id string) (*hydratables.Hydratable, error) {
 		return nil, fmt.Errorf("failed to discover folder, %v", err)
 	}
 	ret, err := hydratables.Hydrate(folder)
+	if err != nil {
+		return nil, err
+	}
 	go func() {
 		if dry {
 			return
-- 
2.43.0


From 646ccea90520319cbbb9ff7539d6b17269f32f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:59 +0000
Subject: [PATCH 38/38] fix: keep the cache keys of different requests apart

The catalog of a folder and its network with an empty hash had the same key,
and so had two facts whose joined name and context read alike. A folder
named like a shared file had the key of that file.
---
 pkg/cache/cache.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/pkg/cache/cache.go b/pkg/cache/cache.go
index 1162cde..0bd502d 100644
--- a/pkg/cache/cache.go
+++ b/pkg/cache/cache.go
@@ -1,9 +1,7 @@
 package cache
 
 import (
-	"encoding/hex"
 	"fmt"
-	"hash/fnv"
 	"path/filepath"
 	"sync"
 
@@ -31,14 +29,17 @@ func NewCache(runDry bool) *gocache.Cache {
 	return appCache
 }
 
+// key tells apart the kinds of cached values and their arguments
+func key(kind string, args ...string) string {
+	return fmt.Sprintf("%s%q", kind, args)
+}
+
 func MarshalExpressable(id string, name string, contextref string) ([]byte, error) {
 	h, err := hydratable(id)
 	if err != nil {
 		return nil, err
 	}
-	hash := fnv.New128a()
-	hash.Write([]byte(id + "/facts/" + name + ":" + contextref))
-	cachekey := hex.EncodeToString(hash.Sum([]byte{}))
+	cachekey := key("facts", id, name, contextref)
 	lock.RLock()
 	if !dry {
 		if x, found := appCache.Get(cachekey); found {
@@ -66,7 +67,7 @@ func MarshalExpressable(id string, name string, contextref string) ([]byte, erro
 func MarshalRenderable(id string, hash string) ([]byte, error) {
 	lock.RLock()
 	if !dry {
-		if x, found := appCache.Get(id + "/" + hash); found {
+		if x, found := appCache.Get(key("renderable", id, hash)); found {
 			ret := x.([]byte)
 			lock.RUnlock()
 			return ret, nil
@@ -88,7 +89,7 @@ func MarshalRenderable(id string, hash string) ([]byte, error) {
 			go func() {
 				lock.Lock()
 				defer lock.Unlock()
-				appCache.Set(id+"/"+hash, data, gocache.DefaultExpiration)
+				appCache.Set(key("renderable", id, hash), data, gocache.DefaultExpiration)
 			}()
 			return data, nil
 		}
@@ -103,7 +104,7 @@ func MarshalRenderable(id string, hash string) ([]byte, error) {
 		}
 		lock.Lock()
 		defer lock.Unlock()
-		appCache.Set(id+"/"+hash, byteArr, gocache.DefaultExpiration)
+		appCache.Set(key("renderable", id, hash), byteArr, gocache.DefaultExpiration)
 	}()
 	return byteArr, err
 }
@@ -115,7 +116,7 @@ func MarshalCatalog(id string) ([]byte, error) {
 	}
 	lock.RLock()
 	if !dry {
-		if x, found := appCache.Get(id + "/"); found {
+		if x, found := appCache.Get(key("catalog", id)); found {
 			ret := x.([]byte)
 			lock.RUnlock()
 			return ret, nil
@@ -132,7 +133,7 @@ func MarshalCatalog(id string) ([]byte, error) {
 		}
 		lock.Lock()
 		defer lock.Unlock()
-		appCache.Set(id+"/", byteArr, gocache.DefaultExpiration)
+		appCache.Set(key("catalog", id), byteArr, gocache.DefaultExpiration)
 	}()
 	return byteArr, err
 }
@@ -140,7 +141,7 @@ func MarshalCatalog(id string) ([]byte, error) {
 func hydratable(id string) (*hydratables.Hydratable, error) {
 	lock.RLock()
 	if !dry {
-		if x, found := appCache.Get(id); found {
+		if x, found := appCache.Get(key("folder", id)); found {
 			ret := x.(*hydratables.Hydratable)
 			lock.RUnlock()
 			return ret, nil
@@ -161,7 +162,7 @@ func hydratable(id string) (*hydratables.Hydratable, error) {
 		}
 		lock.Lock()
 		defer lock.Unlock()
-		appCache.Set(id, ret, gocache.DefaultExpiration)
+		appCache.Set(key("folder", id), ret, gocache.DefaultExpiration)
 	}()
 	return ret, err
 }
-- 
2.43.0

