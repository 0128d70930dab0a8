// Stand-in for the browser capture step as the terminal composers import it.
export * from "/repo/src/render/element-tree-to-svg.ts";
export const captureElementTree = async (page: any, selector: string, viewport: any, opts?: any): Promise<any> => page.__capture("plain", selector, viewport, opts);
