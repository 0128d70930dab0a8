// A complete captured element, defaults as the capture step produces them for a plain block.
export const BASE_STYLES: Record<string, any> = {
  backgroundColor: "rgba(0, 0, 0, 0)", borderColor: "rgb(0, 0, 0)", borderWidth: "0px", borderRadius: "0px",
  borderTopLeftRadius: "0px", borderTopRightRadius: "0px", borderBottomRightRadius: "0px", borderBottomLeftRadius: "0px",
  borderTopWidth: "0px", borderRightWidth: "0px", borderBottomWidth: "0px", borderLeftWidth: "0px",
  borderTopColor: "rgb(0, 0, 0)", borderRightColor: "rgb(0, 0, 0)", borderBottomColor: "rgb(0, 0, 0)", borderLeftColor: "rgb(0, 0, 0)",
  borderTopStyle: "none", borderRightStyle: "none", borderBottomStyle: "none", borderLeftStyle: "none",
  color: "rgb(0, 0, 0)", fontSize: "16px", fontFamily: "sans-serif", fontWeight: "400", fontStyle: "normal",
  lineHeight: "20px", letterSpacing: "normal", textAlign: "left", textTransform: "none", textDecoration: "none",
  textDecorationLine: "none", textDecorationStyle: "solid", textDecorationColor: "rgb(0, 0, 0)", textDecorationThickness: "auto", textUnderlineOffset: "auto",
  whiteSpace: "normal", wordSpacing: "0px", verticalAlign: "baseline", direction: "ltr", writingMode: "horizontal-tb", textOverflow: "clip",
  cursor: "auto", caretColor: "auto", outlineColor: "rgb(0, 0, 0)", outlineWidth: "0px", outlineStyle: "none", outlineOffset: "0px",
  boxShadow: "none", opacity: "1", transform: "none", transformOrigin: "50% 50%", visibility: "visible", borderCollapse: "separate",
  overflowX: "visible", overflowY: "visible", scrollbarGutter: "auto", scrollWidth: 0, scrollHeight: 0, clientWidth: 0, clientHeight: 0, scrollTop: 0, scrollLeft: 0,
  objectFit: "fill", objectPosition: "50% 50%", filter: "none", backdropFilter: "none", mixBlendMode: "normal",
  clipPath: "none", mask: "none", maskImage: "none", maskMode: "match-source", maskSize: "auto", maskPosition: "0% 0%", maskRepeat: "repeat", maskComposite: "add",
  listStyleType: "disc", listStyleImage: "none", display: "block", listStylePosition: "outside",
  backgroundImage: "none", backgroundSize: "auto", backgroundPosition: "0% 0%", backgroundRepeat: "repeat", backgroundClip: "border-box", backgroundOrigin: "padding-box", backgroundAttachment: "scroll",
  paddingTop: "0px", paddingRight: "0px", paddingBottom: "0px", paddingLeft: "0px",
  borderImageSource: "none", borderImageSlice: "100%", borderImageWidth: "1", borderImageOutset: "0", borderImageRepeat: "stretch",
  zIndex: "auto", position: "static", float: "none", order: "0", flexDirection: "row",
};
export function el(o: { tag?: string; x: number; y: number; width?: number; height?: number; text?: string; children?: any[]; styles?: Record<string, any>; [k: string]: any }): any {
  const { styles, ...rest } = o;
  return { tag: "div", text: "", width: 100, height: 20, children: [], ...rest, styles: { ...BASE_STYLES, scrollWidth: o.width ?? 100, scrollHeight: o.height ?? 20, clientWidth: o.width ?? 100, clientHeight: o.height ?? 20, ...styles } };
}
