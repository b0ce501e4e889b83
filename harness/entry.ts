export * from '@visactor/vgrammar-full';
export { vglobal, CustomEvent } from '@visactor/vrender-core';
export * as vutil from '@visactor/vgrammar-util';
export * as vcoord from '@visactor/vgrammar-coordinate';
export * as vhier from '@visactor/vgrammar-hierarchy';
export * as vsankey from '@visactor/vgrammar-sankey';
export * as vproj from '@visactor/vgrammar-projection';
export * as vplot from '@visactor/vgrammar-plot';
export * as vwc from '@visactor/vgrammar-wordcloud';
export * as vwcs from '@visactor/vgrammar-wordcloud-shape';
export * as vvenn from '@visactor/vgrammar-venn';
